"""C04: stepping by hours, months, years and containers."""
import random

import civilobs as co
from civilobs import call, dt
from tla2py import R
from lunar_python import SolarWeek, SolarMonth, SolarSeason, SolarHalfYear, SolarYear
from vlib import judge

OPS = ['hour'] * 4 + ['month'] * 4 + ['year'] * 3 + ['day'] + ['reset'] * 2
U = {'month': SolarMonth, 'season': SolarSeason, 'half': SolarHalfYear, 'year': SolarYear}


def unit_res(unit, y, m, k, o=None):
    o = co.box(U[unit], y, m) if o is None else o
    v = call(lambda: o.next(k))
    if unit == 'year':
        return R({'to': (v.getYear(), m) if not isinstance(v, str) else v})
    return R({'to': (v.getYear(), v.getMonth()) if not isinstance(v, str) else v})


def cell(w):
    return R({'cell': (w.getYear(), w.getMonth(), call(w.getIndex)) if not isinstance(w, str) else w})


def job(seed):
    a = co.api()
    rng = random.Random(seed)
    bad, n, keep = [], 0, []

    def ask(f, e, r):
        nonlocal n
        judge(f, e, r, bad, 'container step')
        n += 1
        if rng.random() < 0.02:
            keep.append(dict(e, res=r))
    for _ in range(250):
        unit = rng.choice(('month', 'season', 'half', 'year'))
        y, m = rng.randint(1, 9999), rng.randint(1, 12)
        if rng.random() < 0.3:
            y = rng.choice((1, 2, 1582, 1583, 1900, 2000, 9999))
        size = {'month': 1, 'season': 3, 'half': 6, 'year': 12}[unit]
        same = co.box(U[unit], y, m) if rng.random() < 0.5 else None       # one object stepped again and again, or one for each step
        for k in {0, 1, -1, rng.randint(-15, 15), rng.randint(-300, 300), rng.randint(-3000, 3000)}:
            t = a.UnitShift(unit, y, m, k)
            if 1 <= t[0] <= 9999:
                ask(lambda e: R({'to': a.UnitShift(e['unit'], e['y'], e['m'], e['k'])}), {'op': 'unit', 'unit': unit, 'y': y, 'm': m, 'k': k}, unit_res(unit, y, m, k, same))
    for _ in range(60):
        d = co.rday(rng, co.FIRST + 9000, co.LAST - 9000)
        if rng.random() < 0.15:
            d = a.DN(1582, 10, 15) + rng.randint(-60, 60)
        st = rng.randrange(7)
        y, m, dd = a.DateOf(d)
        w = co.box(SolarWeek, y, m, dd, st)
        if isinstance(w, str):
            bad.append(('a week cannot be made: ' + w, {'op': 'cell', 'date': (y, m, dd), 'st': st}, ['raised']))
            break
        for k in {0, 1, -1, 2, -2, rng.randint(-12, 12), rng.randint(-60, 60)}:
            ask(lambda e: R({'cell': a.CellShift(a.CellOf(e['n'], e['st']), e['st'], e['k'])}), {'op': 'cell', 'n': d, 'st': st, 'k': k, 'date': (y, m, dd)}, cell(call(w.next, k, True)))
            v = call(w.next, k, False)
            ask(lambda e: R({'first': a.DateOf(a.WeekFirst(e['n'], e['st']) + 7 * e['k'])}), {'op': 'weekstep', 'n': d, 'st': st, 'k': k, 'date': (y, m, dd)},
                R({'first': dt(call(v.getFirstDay)) if not isinstance(v, str) else v}))
        # one step at a time visits every cell
        w1 = w
        for i in range(1, 8):
            w1 = call(w1.next, 1, True)
            ask(lambda e: R({'cell': a.CellShift(a.CellOf(e['n'], e['st']), e['st'], e['k'])}), {'op': 'cell', 'n': d, 'st': st, 'k': i, 'date': (y, m, dd), 'single': True}, cell(w1))
            if isinstance(w1, str):
                break
        w1 = w
        for i in range(1, 8):
            w1 = call(w1.next, -1, True)
            ask(lambda e: R({'cell': a.CellShift(a.CellOf(e['n'], e['st']), e['st'], e['k'])}), {'op': 'cell', 'n': d, 'st': st, 'k': -i, 'date': (y, m, dd), 'single': True}, cell(w1))
            if isinstance(w1, str):
                break
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': keep}


YEARS = (1, 4, 96, 100, 400, 1500, 1578, 1579, 1580, 1581, 1582, 1583, 1584, 1586, 1600, 1696, 1700, 1800, 1896, 1900, 1904, 1999, 2000, 2001, 2023, 2024, 2096, 2100, 2104, 2200, 2400, 4000, 9996, 9999)


def edges(job):
    """steps from month ends, leap days and the days of October onto the years and months where they need clamping"""
    seed, part = job
    a = co.api()
    rng = random.Random(seed * 31 + part)
    bad, n, keep = [], 0, []

    def step(date, s, op, k, one=None):
        nonlocal n
        e = {'op': 'reset', 'n': a.DN(*date), 's': s}
        st = a.Apply(a.St0, e)
        t = a.Target(st, {'op': op, 'k': k})
        if not co.FIRST <= t[0] <= co.LAST:
            return
        cur = one if one is not None else call(co.mk, e['n'], s)
        r = co.obs(call(cur.nextYear if op == 'year' else cur.nextMonth, k) if not isinstance(cur, str) else cur)
        n += 1
        judge(lambda x: a.Expect(st, x), {'op': op, 'k': k, 'date': date}, r, bad, 'step onto a shorter month')
        if len(keep) < 40:
            keep.extend([dict(e, res=co.obs(cur)), {'op': op, 'k': k, 'res': r}])
    ys = [y for i, y in enumerate(YEARS + tuple(rng.randint(1, 9999) for _ in range(14))) if i % 8 == part]
    for y in ys:
        for m in range(1, 13):
            last = a.LastDay(y, m)
            for d in {1, 28, last - 1, last} | ({5, 14, 15} if m == 10 else set()):
                if d > last or not a.DateExists(y, m, d):
                    continue
                s = co.rsec(rng)
                one = co.mk(a.DN(y, m, d), s) if rng.random() < 0.5 else None
                for t in (YEARS if (m, d) == (2, 29) or (m == 10 and 4 < d < 16) or rng.random() < 0.1 else (1582, 1900, y + 1, y - 1, y + 4, y - 4)) + (rng.randint(1, 9999),):
                    step((y, m, d), s, 'year', t - y, one)
                for t in range(1, 13):
                    u = rng.choice((y, y + 1, y - 1, 1582, 1900, 2000) + YEARS)
                    step((y, m, d), s, 'month', (u - y) * 12 + t - m, one)
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def run(ctx):
    co.api()
    co.specials()
    co.models(ctx)
    w = ctx.sweep(co.walks, [(ctx.seed * 6007 + i, 60 if not ctx.thorough else 400, 300, OPS, i < 24) for i in range(96)], 'walk steps')
    w = [x for x in w if len(x) >= 250]
    ev = co.flat(w, 300)
    ed = ctx.sweep(edges, [(ctx.seed * 7 + i // 8, i % 8) for i in range(128 if not ctx.thorough else 1600)], 'clamped steps')
    k = ctx.sweep(job, range(ctx.seed * 100000, ctx.seed * 100000 + (1200 if not ctx.thorough else 8000)), 'container steps')
    ctx.rng.shuffle(k)
    k = k[:4000]
    for e in ev[1:4] + k[:3]:
        ctx.sample(e)
    ctx.trace('Trace_Civil', ev, chunk=300)
    ctx.trace('Trace_Civil', ed[:400], chunk=200)
    ctx.trace('Trace_CivilFacts', k, chunk=200)
    co.self_test(ctx, 'Trace_Civil', ev, 300)
    co.self_test(ctx, 'Trace_CivilFacts', k, 200)
    ctx.assumptions += ['dates in years 1..9999']
