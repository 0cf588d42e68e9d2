"""C14: stepping by working days."""
import random
import sys

import civilobs as co
import holidayobs as ho
import vlib
from vlib import judge

MODEL = '''CONSTANTS First = %d Span = %d Special = {%s}
SPECIFICATION Spec
INVARIANTS Landing Composes Undone Exact
CHECK_DEADLOCK FALSE
'''
BIND = ('W0', 'WExpect', 'WApply')
LEN = 40


def steps(job):
    seed, count = job
    sys.setrecursionlimit(20000)
    a = ho.api()
    rng = random.Random(seed)
    st = dict(a.W0, days=sorted(a.W0['recs']))
    n, bad, keep = 0, [], []
    for _ in range(count):
        e, r = ho.work(rng, st, True)
        n += 1
        if judge(a.Facts, dict(e, res=r), r, bad, 'working days') and rng.random() < 0.02:
            keep.append(dict(e, res=r))
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def days(job):
    """one step each way from every day of a span"""
    lo, hi = job
    a = ho.api()
    n, bad = 0, []
    for d in range(lo, hi):
        for k in (1, -1):
            if not co.FIRST + 9 < d < co.LAST - 9:
                continue
            x = co.mk(d, 43200)
            r = ho.R({'full': co.full(vlib.call(x.next, k, True))})
            n += 1
            judge(a.Facts, {'op': 'work', 'n': d, 's': 43200, 'k': k, 'res': r}, r, bad, 'one working day')
    return {'n': n, 'bad': bad[:5]}


def run(ctx):
    a = ho.api()
    c = co.api()
    q = not ctx.thorough
    ctx.model('MC_Workdays', MODEL % (2458850, 12, '2, 3, 8' if q else '0, 1, 2, 3, 8, 9'), workers=8, timeout=900)
    ctx.model('MC_Workdays', MODEL % (2299157, 12, '2, 4, 9' if q else '0, 2, 4, 5, 9'), name='October 1582', workers=8, timeout=900)
    f, l = c.DN(2001, 12, 1), c.DN(2027, 1, 1)
    jobs = [(x, min(x + 200, l)) for x in range(f, l, 200)] + [(2299130, 2299190), (co.FIRST, co.FIRST + 1500), (c.DN(201, 1, 1), c.DN(202, 12, 31))]
    if not q:
        jobs += [(x, x + 2000) for x in range(co.FIRST, co.LAST, 2000)]
    ctx.sweep(days, jobs, 'single working-day steps')
    k = ctx.sweep(steps, [(ctx.seed * 6007 + i, 150 if q else 3000) for i in range(64)], 'working-day steps')
    h = ctx.sweep(ho.history, [(ctx.seed * 104729 + i, LEN, 0.25, 0.6) for i in range(500 if q else 8000)], 'steps under corrected stores', fresh=True)
    ctx.rng.shuffle(k)
    ev = [x for w in h[:25] for x in w]
    for e in k[:3] + ev[1:5]:
        ctx.sample(e)
    ctx.trace('Trace_Holiday', k[:300], bind='Facts', chunk=50)
    ctx.trace('Trace_HolidayWalk', ev, bind=BIND, chunk=LEN)
    vlib.self_test(ctx, 'Trace_HolidayWalk', ev, LEN, bind=BIND)
    ctx.assumptions += ['steps that stay within years 1..9999', 'built-in records of the release are data of the specification']
