"""C05: only real dates are accepted, and a refusal leaves no trace."""
import datetime
import random

import civilobs as co
import lunarobs as lo
import vlib
from civilobs import full
from lunar_python import Foto, Lunar, LunarMonth, LunarTime, LunarYear, Solar, Tao
from tla2py import R
from vlib import call, judge

CLS = {'solar': Solar, 'lunar': Lunar, 'time': LunarTime, 'foto': Foto, 'tao': Tao}
SHIFT = {'solar': 0, 'lunar': 0, 'time': 0, 'foto': 544, 'tao': 2697}


def api():
    return lo.api('AcceptApi')


def make(kind, f, how):
    c = CLS[kind]
    if how == 1 and f[3:] == (0, 0, 0) and kind != 'time':
        return call(c.fromYmd, *f[:3])
    if how == 2 and kind in ('solar', 'lunar', 'time'):
        return call(c, *f)
    return call(c.fromYmdHms, *f)


def seen(kind, x):
    if isinstance(x, str):
        return R({'refused': True})
    if kind == 'solar':
        return R({'got': full(x)})
    if kind == 'time':
        return R({'got': (call(x.getZhi),)})
    l = x if kind == 'lunar' else call(x.getLunar)
    return R({'got': (x.getYear(), x.getMonth(), x.getDay(), l.getHour(), l.getMinute(), l.getSecond()), 'solar': full(call(l.getSolar))})


TIMES = (0, 0, 0, 1, 11, 12, 22, 23, 24, 25, -1, 59, 60)


def rfields(rng, a, kind):
    y = lo.ryear(rng, 1, 9998)
    if kind == 'solar':
        r = rng.random()
        if r < 0.25:
            y, m, d = 1582, 10, rng.choice(range(0, 33))
        else:
            if r < 0.4:
                y = rng.choice((1, 4, 100, 1500, 1582, 1583, 1700, 1900, 2000, 9999))
            m = rng.choice(list(range(1, 13)) * 2 + [0, -1, 13, 14, 2])
            d = rng.choice(list(range(1, 32)) + [0, -1, 32, 29, 30, 31, 100])
    else:
        lp = a.LeapMonth(y)
        m = rng.choice(list(range(1, 13)) + [0, 13, -13, -rng.randint(1, 12), -lp, lp, -lp, -(lp % 12 + 1)])
        d = rng.choice((1, 1, 2, 15, 28, 29, 29, 30, 30, 30, 31, 0, -1, rng.randint(1, 29)))
        y += SHIFT[kind]
    t = (0, 0, 0)
    if rng.random() < 0.6:
        t = (rng.choice(TIMES) if rng.random() < 0.4 else rng.randrange(24), rng.choice(TIMES) if rng.random() < 0.3 else rng.randrange(60), rng.choice(TIMES) if rng.random() < 0.3 else rng.randrange(60))
    return (y, m, d) + t


NONSENSE = [lambda: LunarYear.fromYear('x'), lambda: LunarYear.fromYear(None), lambda: Lunar.fromYmd(None, 1, 1), lambda: Lunar.fromYmd('2020', 1, 1),
            lambda: LunarYear.fromYear([]), lambda: LunarMonth.fromYm('y', 1), lambda: Solar.fromYmd(2020, '1', 1), lambda: Lunar.fromYmd(2020, 1, None), lambda: LunarYear(None)]


def session(job):
    seed, length = job
    a = api()
    rng = random.Random(seed)
    st, live, events, bad, n = a.W0, [], [{'op': 'start', 'res': R({'ok': True})}], [], 0
    for _ in range(length - 1):
        r = rng.random()
        obj = None
        if r < 0.5:
            kind = rng.choice(('solar', 'lunar', 'lunar', 'lunar', 'time', 'foto', 'tao'))
            f = rfields(rng, a, kind)
            if rng.random() < 0.15 and live:       # the same day again, one field off
                k, g = st['held'][-1]['kind'], list(st['held'][-1]['f'])
                g[rng.choice((1, 2, 2, 3))] += rng.choice((1, -1))
                kind, f = k, tuple(g)
            obj = make(kind, f, rng.randrange(3))
            ev, res = {'op': 'build', 'kind': kind, 'f': f}, seen(kind, obj)
        elif r < 0.65 and live:
            i = rng.randrange(len(live))
            ev, res = {'op': 'look', 'i': i + 1}, seen(st['held'][i]['kind'], live[i])
        elif r < 0.78:
            n_, s = lo.rday(rng, a), co.rsec(rng)
            ev, res = {'op': 'convert', 'n': n_, 's': s}, lo.sol_res(n_, s)
        elif r < 0.84:
            y = lo.ryear(rng, 1, 9998)
            x = call(LunarYear.fromYear, y)
            ev, res = {'op': 'year', 'y': y}, R({'days': call(x.getDayCount), 'leap': call(x.getLeapMonth)}) if not isinstance(x, str) else R({'raised': x})
        elif r < 0.94:
            y = lo.ryear(rng, 1, 9998)
            m = rng.choice([-a.LeapMonth(y), rng.randint(-13, 13)])
            x = call(LunarMonth.fromYm, y, m)
            ev, res = {'op': 'month', 'y': y, 'm': m}, R({'none': True}) if x is None else R({'raised': x}) if isinstance(x, str) else R({'label': (x.getYear(), x.getMonth()), 'days': x.getDayCount()})
        else:
            x = call(rng.choice(NONSENSE))
            ev, res = {'op': 'nonsense'}, R({'refused': isinstance(x, str)})
        n += 1
        if not judge(lambda e: a.WExpect(st, e), dict(ev, res=res), res, bad, 'session'):
            bad[-1][1]['before'] = events[-6:]
            break
        if ev['op'] == 'build' and not isinstance(obj, str):
            live = (live + [obj])[-3:]
        st = a.WApply(st, ev)
        events.append(dict(ev, res=res))
    return {'n': n, 'bad': bad, 'keep': [events] if len(events) == length else []}


def solar_grid(job):
    """every month -1..14 and day -1..33 of some years; every boundary time"""
    a = api()
    n, bad, keep = 0, [], []
    for y in job:
        for m in range(-1, 15):
            for d in range(-1, 34):
                f = (y, m, d, 0, 0, 0)
                r = seen('solar', make('solar', f, (m + d) % 3))
                n += 1
                judge(a.AcceptFacts, {'op': 'build', 'kind': 'solar', 'f': f, 'res': r}, r, bad, 'solar grid')
        for h in (-1, 0, 1, 12, 22, 23, 24, 25, 60):
            for mi in (-1, 0, 1, 30, 58, 59, 60, 61):
                for s in (-1, 0, 1, 30, 58, 59, 60, 61):
                    f = (y, 1 + (h + mi) % 12, 1 + (s + y) % 28, h, mi, s)
                    if not a.SolarOk(*f[:3]):
                        continue
                    r = seen('solar', make('solar', f, (h + s) % 3))
                    n += 1
                    if judge(a.AcceptFacts, {'op': 'build', 'kind': 'solar', 'f': f, 'res': r}, r, bad, 'time grid') and n % 997 == 0:
                        keep.append({'op': 'build', 'kind': 'solar', 'f': f, 'res': r})
        try:
            x = datetime.datetime(y, 3, 4, 5, 6, 7)
        except ValueError:
            continue
        r = seen('solar', call(Solar.fromDate, x))
        judge(a.AcceptFacts, {'op': 'build', 'kind': 'solar', 'f': (y, 3, 4, 5, 6, 7), 'res': r}, r, bad, 'from a Python datetime')
        n += 1
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def lunar_grid(job):
    """every month -13..13 with the days around its length, of some lunar years"""
    a = api()
    n, bad, keep = 0, [], []
    for y in job:
        rng = random.Random(y)
        for m in range(-13, 14):
            for d in (0, 1, 29, 30, 31):
                kind = rng.choice(('lunar', 'lunar', 'lunar', 'time', 'foto', 'tao'))
                f = (y + SHIFT[kind], m, d) + rng.choice(((0, 0, 0), (23, 59, 59), (12, 30, 0), (24, 0, 0), (0, 60, 0), (5, 4, 60), (-1, 0, 0)))
                x = make(kind, f, rng.randrange(3))
                r = seen(kind, x)
                n += 1
                if judge(a.AcceptFacts, {'op': 'build', 'kind': kind, 'f': f, 'res': r}, r, bad, 'lunar grid') and n % 499 == 0:
                    keep.append({'op': 'build', 'kind': kind, 'f': f, 'res': r})
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': keep}


MODEL = '''CONSTANTS Years = {%s} MaxCalls = %d
SPECIFICATION Spec
INVARIANTS Unlocked HeldIsAccepted Exactly
CHECK_DEADLOCK FALSE
'''
BIND = ('W0', 'WExpect', 'WApply')
LEN = 50


def run(ctx):
    api()
    co.api()
    q = not ctx.thorough
    ctx.model('MC_Accept', MODEL % ('2020, 2023, 237, 9' if q else '1, 9, 23, 237, 239, 1582, 2020, 2023, 2033, 9998', 3), workers=8, timeout=1500)
    ys = [1, 2, 4, 100, 1500, 1581, 1582, 1583, 1584, 1600, 1700, 1900, 1999, 2000, 2001, 2023, 2024, 9998, 9999] + [ctx.rng.randint(1, 9999) for _ in range(45 if q else 1500)]
    k = ctx.sweep(solar_grid, [tuple(ys[i::64]) for i in range(64)], 'solar constructions')
    ly = lo.REFORM + [1, 2, 3, 1582, 2033, 9997, 9998] + (ctx.rng.sample(range(1, 9999), 400) if q else list(range(1, 9999)))
    k += ctx.sweep(lunar_grid, [tuple(ly[i::128]) for i in range(128)], 'lunar constructions', hang=60)
    w = ctx.sweep(session, [(ctx.seed * 8111 + i, LEN) for i in range(480 if q else 20000)], 'session calls', hang=60)
    ctx.rng.shuffle(k)
    k = k[:400]
    w = [x for c in w[:20] for x in c]
    for e in k[:4] + w[1:6]:
        ctx.sample(e)
    ctx.trace('Trace_Accept', k, bind='AcceptFacts', chunk=50)
    ctx.trace('Trace_AcceptWalk', w, bind=BIND, chunk=LEN)
    vlib.self_test(ctx, 'Trace_Accept', k, 50, bind='AcceptFacts')
    vlib.self_test(ctx, 'Trace_AcceptWalk', w, LEN, bind=BIND)
    ctx.assumptions += ['any exception counts as a refusal', 'the library accepts days up to 31 in every solar month (pinned by its tests)', 'lunar years 1..9998']
