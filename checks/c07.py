"""C07: structure of lunar years and stepping of lunar years and months."""
import random

import c06
import lunarobs as lo
import vlib
from lunar_python import LunarMonth, LunarYear
from tla2py import R
from vlib import call, judge


def year_job(ys):
    a = lo.api()
    rng = random.Random(ys[0])
    bad, n, keep = [], 0, []
    for y in ys:
        e = {'op': 'lyear', 'y': y}
        r = lo.lyear_res(y)
        if judge(a.Facts, e, r, bad, 'lunar year') and (rng.random() < 0.02 or y in lo.REFORM):
            keep.append(dict(e, res=r))
        n += 1
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def walk_job(job):
    seed, count, length, keepit = job
    a = lo.api()
    n, bad, kept = 0, [], []
    last = a.FirstMoon(9999)
    first = a.FirstMoon(2)
    for w in range(count):
        rng = random.Random(seed * 1000 + w)
        st, events, cur = 0, [], None
        while len(events) < length:
            op = rng.choice(('month',) * 8 + ('year', 'reset')) if events else 'reset'
            if op == 'reset':
                y = lo.ryear(rng, 2, 9998)
                f = a.FirstMoon(y)
                i = rng.randrange(f, a.FirstMoon(y + 1))
                e = {'op': op, 'y': y, 'm': a.Label(i)[1]}
                cur = call(LunarMonth.fromYm, y, e['m'])
                res = lo.lmonth_res(cur)
            elif op == 'month':
                k = rng.choice((0, 1, -1, 1, -1, 1, -1, 2, -3, 11, 12, 13, -12, -13, rng.randint(-30, 30), rng.randint(-300, 300)))
                if not first <= st + k < last:
                    continue
                e = {'op': op, 'k': k}
                cur = call(cur.next, k)
                res = lo.lmonth_res(cur)
            else:
                k = rng.choice((0, 1, -1, rng.randint(-300, 300)))
                y = a.Label(st)[0]
                if not 1 <= y + k <= 9999:
                    continue
                e = {'op': op, 'k': k}
                v = call(lambda: LunarYear.fromYear(y).next(k).getYear())
                res = R({'y': v})
            n += 1
            if not judge(lambda ev: a.MWalkExpect(st, ev), dict(e, at=st, label=a.Label(st) if st else None), res, bad, 'lunar month walk'):
                break
            st = a.MWalkApply(st, e)
            events.append(dict(e, res=res))
        if keepit and w == 0 and len(events) == length:
            kept.append(events)
    return {'n': n, 'bad': bad[:5], 'keep': kept}


def step_job(ys):
    """every month of a year: one step forward and back from each month object"""
    a = lo.api()
    bad, n = [], 0
    for y in ys:
        for i in range(a.FirstMoon(y), a.FirstMoon(y + 1)):
            m = call(LunarMonth.fromYm, y, a.Label(i)[1])
            for k in (1, -1, 13):
                if a.FirstMoon(1) <= i + k:
                    e = {'op': 'month', 'k': k, 'label': a.Label(i)}
                    judge(lambda ev: a.MWalkExpect(i, ev), e, lo.lmonth_res(call(m.next, k) if not isinstance(m, str) and m is not None else m), bad, 'lunar month step')
                    n += 1
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5]}


BIND = ('MWalk0', 'MWalkExpect', 'MWalkApply')


def run(ctx):
    a = lo.api()
    c06.models(ctx, 12 if not ctx.thorough else 400)
    ys = list(range(1, 10000))
    k = ctx.sweep(year_job, [ys[i:i + 40] for i in range(0, len(ys), 40)], 'lunar years')
    ss = sorted(set(ctx.rng.sample(range(1, 9998), 6000)) | set(lo.REFORM)) if not ctx.thorough else list(range(1, 9998))
    ctx.sweep(step_job, [ss[i:i + 20] for i in range(0, len(ss), 20)], 'month steps', init=vlib.memo_years)
    w = ctx.sweep(walk_job, [(ctx.seed * 7001 + i, 3 if not ctx.thorough else 40, 80, True) for i in range(64)], 'walk steps', init=vlib.memo_years)
    w = [x for c in w[:40] for x in c]
    for e in k[:2] + w[:4]:
        ctx.sample(e)
    ctx.trace('Trace_Lunar', k, bind='Facts', chunk=20)
    ctx.trace('Trace_LMonthWalk', w, bind=BIND, chunk=80)
    vlib.self_test(ctx, 'Trace_LMonthWalk', w, 80, bind=BIND)
    vlib.self_test(ctx, 'Trace_Lunar', k, 20, bind='Facts')
    ctx.assumptions += ['lunar years 1..9999', 'the new-moon days and principal-term days of the release are taken as given (spec/data/almanac.json)']
