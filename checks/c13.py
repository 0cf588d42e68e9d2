"""C13: the holiday store as a map under histories of corrections."""
import holidayobs as ho
import civilobs as co
import vlib
from vlib import call, judge
from tla2py import R
from lunar_python.util import HolidayUtil

MODEL = '''CONSTANTS Days = {20200101, 20200131, 20200201, 20210101%s} Targets = {20200101, 20210101} Names2 = {%s}
SPECIFICATION Spec
INVARIANTS Refines Ordered Prefixed Commute
CHECK_DEADLOCK FALSE
'''
BIND = ('W0', 'WExpect', 'WApply')
LEN = 60


def builtin(job):
    """every query of the built-in store, for every day, month, year and target of a year"""
    a = ho.api()
    n, bad, keep = 0, [], []
    for y in job:
        qs = [({'op': 'year', 'y': y}, R({'found': ho.views(call(HolidayUtil.getHolidays, y))}))]
        for m in range(1, 13):
            qs.append(({'op': 'month', 'y': y, 'm': m}, R({'found': ho.views(call(HolidayUtil.getHolidays, y, m))})))
            for d in range(1, 32):
                if co.api().DateExists(y, m, d):
                    c = y * 10000 + m * 100 + d
                    h = call(HolidayUtil.getHoliday, y, m, d)
                    qs.append(({'op': 'day', 'day': c}, R({'found': ho.view(h), 'text': '' if h is None else call(h.toString)})))
                    qs.append(({'op': 'target', 't': c}, R({'found': ho.views(call(HolidayUtil.getHolidaysByTarget, y, m, d))})))
        for e, r in qs:
            n += 1
            if judge(a.Facts, dict(e, res=r), r, bad, 'built-in store') and (r.get('found') or n % 97 == 0):
                keep.append(dict(e, res=r))
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def run(ctx):
    ho.api()
    co.api()
    q = not ctx.thorough
    ctx.model('MC_Holidays', MODEL % ('', '0' if q else '0, 1'), workers=8, timeout=2000, heap='8g')
    if not q:
        ctx.model('MC_Holidays', MODEL % (', 20210102', '0'), name='five days', workers=8, timeout=2000, heap='8g')
    k = ctx.sweep(builtin, [(y,) for y in list(range(1999, 2032)) + [1, 2, 20, 200, 201, 202, 999, 2999, 9999]], 'built-in queries')
    h = ctx.sweep(ho.history, [(ctx.seed * 7919 + i, LEN, 0.35, 0.0) for i in range(1200 if q else 20000)], 'history calls', fresh=True)
    ctx.rng.shuffle(k)
    ev = [x for c in h[:25 if q else 120] for x in c]
    for e in ev[1:5] + k[:3]:
        ctx.sample(e)
    ctx.trace('Trace_HolidayWalk', ev, bind=BIND, chunk=LEN)
    ctx.trace('Trace_Holiday', k[:400], bind='Facts', chunk=50)
    vlib.self_test(ctx, 'Trace_HolidayWalk', ev, LEN, bind=BIND)
    vlib.self_test(ctx, 'Trace_Holiday', k[:50], 50, bind='Facts')
    ctx.assumptions += ['record days and targets are existing dates; names lists cover the name numbers in use', 'built-in records of the release are data of the specification']
