"""C09: the four pillars."""
import random

import civilobs as co
import lunarobs as lo
import termobs as to
import vlib
from civilobs import mk
from lunar_python import Solar
from tla2py import R
from vlib import call, judge

V = ('Year', 'YearByLiChun', 'YearExact', 'Month', 'MonthExact', 'Day', 'DayExact', 'DayExact2', 'Time')


def split(v):
    for u in ('Year', 'Month', 'Day', 'Time'):
        if v.startswith(u):
            return u, v[len(u):]


NAMES = tuple('get%sInGanZhi%s' % split(v) for v in V)
GAN = tuple('get%sGan%s' % split(v) for v in V)
ZHI = tuple('get%sZhi%s' % split(v) for v in V)
GI = tuple('get%sGanIndex%s' % split(v) for v in V)
ZI = tuple('get%sZhiIndex%s' % split(v) for v in V)
SX = ('getYearShengXiao', 'getYearShengXiaoByLiChun', 'getYearShengXiaoExact', 'getMonthShengXiao', 'getMonthShengXiaoExact', 'getDayShengXiao', 'getTimeShengXiao')


def api():
    return lo.api('PillarApi')


def pil_res(l):
    if isinstance(l, str):
        return R({'raised': l})

    def q(names):
        return tuple(call(getattr(l, x)) for x in names)
    return R({'name': q(NAMES), 'gan': q(GAN), 'zhi': q(ZHI), 'gi': q(GI), 'zi': q(ZI), 'animals': q(SX)})


EDGE = (0, 3599, 3600, 7199, 10799, 10800, 82799, 82800, 82801, 86340, 86399, 43199, 46800)


def rs(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice(EDGE)
    if r < 0.5:
        return rng.randrange(24) * 3600 + rng.choice((0, 3599))
    return rng.randrange(86400)


def lunar_at(n, s, via):
    """the date of the moment, reached through the solar or through the lunar constructor"""
    if via:
        a = api()
        y, m, d = a.LunarOf(n)
        if y >= 1:
            from lunar_python import Lunar
            return call(Lunar.fromYmdHms, y, m, d, *lo.hms(s))
    return call(lambda: mk(n, s).getLunar())


def year_job(job):
    import dateobs as do_
    y, seed, dense = job
    a = api()
    rng = random.Random(seed * 53 + y)
    bad, n, keep = [], 0, []

    def do(e):
        nonlocal n
        n += 1
        r = pil_res(lunar_at(e['n'], e['s'], rng.random() < 0.5))
        if judge(a.Facts, e, r, bad, 'pillars') and rng.random() < 0.004:
            keep.append(dict(e, res=r))
    l = call(lambda: Solar.fromYmd(y, 6, 1).getLunar())
    if isinstance(l, str):
        return {'n': 1, 'bad': [('the date cannot be built: ' + l, {'y': y}, ['raised'])]}
    own = [to.inst(l.getJieQiTable()[k]) for k in a.Names['inuse']]
    ny = a.Moons[a.FirstMoon(y) - 1]
    days = {ny - 1, ny, ny + 1, ny - 2, a.DN(y, 1, 1), a.DN(y, 12, 31)}
    days |= {a.DN(y, 1, 1) + d for d in (range(0, 366) if dense else rng.sample(range(0, 366), 6))}
    for i in (range(0, 31) if dense else [4, rng.randrange(0, 31), rng.randrange(0, 30, 2)]):
        k = a.TermIx(y, i)
        days |= {a.TermN[k - 1] + d for d in (-1, 0, 1)}
        if co.FIRST <= own[i][0] <= co.LAST and to.clearday(own[i][0]):
            for delta in (-1, 0, 1):
                t = a.MAdd(own[i][0], own[i][1], delta)
                do({'op': 'pilat', 'k': k, 'delta': delta, 'n': t[0], 's': t[1]})
    for d in days:
        if co.FIRST <= d <= co.LAST and to.clearday(d):
            for _ in range(2):
                s = rs(rng)
                if to.clear(d, s):
                    do({'op': 'pil', 'n': d, 's': s})
        if len(bad) > 5:
            break
    for d, s in do_.crowd(y, seed, 2):
        do({'op': 'pil', 'n': d, 's': s})
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def walk_job(job):
    seed, count, length = job
    a = api()
    n, bad, kept = 0, [], []
    for w in range(count):
        rng = random.Random(seed * 1000 + w)
        st, events = a.W0, []
        while len(events) < length:
            op = rng.choice(('hour',) * 5 + ('day',) * 4 + ('reset',)) if events else 'reset'
            e = {'op': op}
            if op == 'reset':
                e.update(n=co.rday(rng, co.FIRST, co.LAST), s=rs(rng))
            elif op == 'hour':
                e['k'] = rng.choice((1, 1, 1, 2, -1, 12, 24, rng.randint(-50, 50), rng.randint(-9000, 9000)))
            else:
                e['k'] = rng.choice((1, 1, -1, 30, 365, -365, 60, rng.randint(-40, 40)))
            t = a.WApply(st, e)
            if not co.FIRST <= t['n'] <= co.LAST or not to.clear(t['n'], t['s']) or not to.clearday(t['n']):
                continue
            if op == 'reset':
                cur = call(lambda: mk(e['n'], e['s']).getLunar())
            elif op == 'hour':
                cur = call(lambda: cur.getSolar().nextHour(e['k']).getLunar())
            else:
                cur = call(lambda: cur.next(e['k']))
            r = pil_res(cur)
            n += 1
            if not judge(lambda x: a.WExpect(st, x), dict(e, at=dict(st)), r, bad, 'pillar walk'):
                break
            st = t
            events.append(dict(e, res=r))
        if w == 0 and len(events) == length:
            kept.append(events)
    return {'n': n, 'bad': bad[:5], 'keep': kept}


MODEL = '''CONSTANTS Starts = {%s} Hours = %d
SPECIFICATION Spec
INVARIANTS Counters FirstMonthStem FiveRats Parity DayVsInstant YearVsInstant
CHECK_DEADLOCK FALSE
'''
BIND = ('W0', 'WExpect', 'WApply')


def run(ctx):
    a = api()
    co.api()
    to.api()
    ys = ctx.rng.sample(range(2, 9990), 3) + [1582, 239, 2023] if not ctx.thorough else sorted(ctx.rng.sample(range(2, 9990), 60)) + [1582, 239, 2023, 8, 23]
    ctx.model('MC_Pillars', MODEL % (', '.join(str(a.DN(y, 1, 1)) for y in ys), 24 * (400 if not ctx.thorough else 800)), workers=8, timeout=2500, heap='6g')
    years = range(1, 10000)
    dense = set(ctx.rng.sample(list(years), 40)) | {1, 239, 1582, 2020, 9999} if not ctx.thorough else set(range(1, 10000))
    k = ctx.sweep(year_job, [(y, ctx.seed, y in dense) for y in years], 'pillar queries', init=vlib.memo_years)
    w = ctx.sweep(walk_job, [(ctx.seed * 619 + i, 3 if not ctx.thorough else 40, 80) for i in range(64)], 'walk steps', init=vlib.memo_years)
    ctx.rng.shuffle(k)
    k = k[:2000]
    w = [x for c in w[:40] for x in c]
    for e in k[:3] + w[:3]:
        ctx.sample(e)
    ctx.trace('Trace_Pillar', k, bind='Facts', chunk=100)
    ctx.trace('Trace_PillarWalk', w, bind=BIND, chunk=80)
    vlib.self_test(ctx, 'Trace_Pillar', k, 60, bind='Facts')
    vlib.self_test(ctx, 'Trace_PillarWalk', w, 80, bind=BIND)
    ctx.assumptions += ['term instants of the release are taken as given to two seconds; closer moments are asked only relative to the library\'s own instants']
