"""C01: stepping, differences and order of civil dates."""
import random

import civilobs as co
from civilobs import call, dt
from tla2py import R
from lunar_python import Solar, SolarYear
from lunar_python.util import SolarUtil
from vlib import judge


def day_job(job):
    lo, hi = job
    a = co.api()
    bad, n, keep = [], 0, []
    for d in range(lo, hi):
        y, m, dd = a.DateOf(d)
        s = call(Solar.fromYmd, y, m, dd)
        if isinstance(s, str):
            bad.append(('a real date is refused', {'op': 'dayfacts', 'n': d, 'date': (y, m, dd)}, ['ymd']))
            continue
        res = R({'ymd': dt(s), 'leap': call(s.isLeapYear), 'doy': call(SolarUtil.getDaysInYear, y, m, dd), 'week': call(s.getWeek),
                 'next': dt(call(s.next, 1)) if d < co.LAST else (0,), 'prev': dt(call(s.next, -1)) if d > co.FIRST else (0,), 'text': call(s.toYmd), 'given': co.full(co.given(d, a.Clock(d)))})
        judge(lambda e: a.DayFacts(e['n']), {'op': 'dayfacts', 'n': d}, res, bad, 'day facts')
        n += 1
        if d % 9973 == 0:
            keep.append({'op': 'dayfacts', 'n': d, 'res': res})
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def year_job(job):
    a = co.api()
    bad, n, keep = [], 0, []
    for y in range(*job):
        sy = SolarYear.fromYear(y)
        f = call(Solar.fromYmd, y, 1, 1)
        res = R({'leap': call(SolarUtil.isLeapYear, y), 'days': call(SolarUtil.getDaysOfYear, y),
                 'months': tuple(call(SolarUtil.getDaysOfMonth, y, m) for m in range(1, 13)),
                 'first': a.DN(*dt(f)) if not isinstance(f, str) else f,
                 'list': tuple((m.getYear(), m.getMonth()) for m in sy.getMonths())})
        judge(lambda e: a.YearFacts(e['y']), {'op': 'yearfacts', 'y': y}, res, bad, 'year facts')
        n += 1
        if y % 100 == 0 or y in (1582, 4, 2024):
            keep.append({'op': 'yearfacts', 'y': y, 'res': res})
    return {'n': n, 'bad': bad[:5], 'keep': keep}


YS = (1, 4, 100, 1000, 1581, 1582, 1583, 1584, 1600, 1700, 1900, 2000, 2024, 2100, 9999)
MDS = ((2, 28), (2, 29), (3, 1), (12, 31), (1, 1), (1, 31), (10, 4), (10, 15), (10, 31), (11, 1))


def pair_job(job):
    """two moments any distance apart, months and days of one kind: their differences, their order, and the step from one to the other"""
    seed, count = job
    a = co.api()
    rng = random.Random(seed)
    bad, n = [], 0

    def day(y, md):
        y, (m, d) = min(max(y, 1), 9999), md
        while not a.DateExists(y, m, d):
            d = d - 1 if d > 15 or y != 1582 else 15
        return a.DN(y, m, d)
    for _ in range(count):
        md = (10, rng.randint(1, 20)) if rng.random() < 0.4 else rng.choice(MDS)
        ys, ya = rng.choice(YS), rng.randint(1, 9999)
        yb = rng.choice((2 * ys - ya, 2 * ys - ya + rng.choice((-1, 1)), ya, ys, rng.randint(1, 9999), ya + rng.choice((-400, -100, -4, -1, 1, 4, 100, 400))))
        nd = (md[0], min(max(md[1] + rng.choice((0, 0, 1, -1, 2, 5)), 1), 28)) if rng.random() < 0.7 else rng.choice(MDS)
        st = R({'n': day(ya, md), 'mn': day(yb, nd), 's': co.rsec(rng), 'ms': co.rsec(rng)})
        x, y = co.mk(st['n'], st['s']), co.mk(st['mn'], st['ms'])
        k = st['mn'] - st['n']
        for e, r in (({'op': 'compare'}, call(co.compare, x, y)), ({'op': 'day', 'k': k}, co.obs(call(x.next, k)))):
            n += 1
            judge(lambda z: a.Expect(st, z), dict(e, at=dict(st), res=r), r, bad, 'two dates')
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5]}


OPS = ['day'] * 10 + ['compare'] * 5 + ['mark', 'reset', 'reset']


def run(ctx):
    co.api()
    co.models(ctx)
    k = ctx.sweep(day_job, [(d, min(d + 20000, co.LAST + 1)) for d in range(co.FIRST, co.LAST + 1, 20000)], 'days')
    k += ctx.sweep(year_job, [(y, min(y + 250, 10000)) for y in range(1, 10000, 250)], 'years')
    ctx.sweep(pair_job, [(ctx.seed * 9001 + i, 600 if not ctx.thorough else 20000) for i in range(48)], 'pairs of dates')
    w = ctx.sweep(co.walks, [(ctx.seed * 5003 + i, 6 if not ctx.thorough else 200, 400, OPS, i < 24) for i in range(96)], 'walk steps')
    w = [x for x in w if len(x) >= 400]
    ev = co.flat(w, 400)
    for e in ev[1:5]:
        ctx.sample(e)
    ctx.trace('Trace_Civil', ev, chunk=400)
    ctx.trace('Trace_CivilFacts', k, chunk=100)
    co.self_test(ctx, 'Trace_Civil', ev, 400)
    ctx.assumptions += ['dates in years 1..9999', 'compiled specification agrees with TLC (both judge the same recorded walks in this run)']
