"""C06: solar and lunar dates correspond one to one."""
import random

import civilobs as co
import lunarobs as lo
import vlib
from civilobs import full, mk
from lunar_python import Lunar
from tla2py import R
from vlib import call, judge


def day_job(job):
    """all the days of a lunar year (or only the month borders), both directions"""
    y, every, seed = job
    a = lo.api()
    rng = random.Random(seed * 31 + y)
    bad, n, keep = [], 0, []
    for i in range(a.FirstMoon(y), a.FirstMoon(y + 1)):
        ln = a.MoonLen(i)
        lab = a.Label(i)
        for d in (range(1, ln + 1) if every else {1, 2, ln, rng.randint(1, ln)}):
            dn = a.Moons[i - 1] + d - 1
            if not co.FIRST <= dn <= co.LAST:
                continue
            s = rng.choice(co.SECS) if rng.random() < 0.2 else rng.randrange(86400)
            e = {'op': 'sol', 'n': dn, 's': s}
            r = lo.sol_res(dn, s)
            ok = judge(a.Facts, dict(e, date=a.DateOf(dn)), r, bad, 'solar to lunar')
            n += 1
            e2 = {'op': 'lun', 'y': lab[0], 'm': lab[1], 'd': d, 's': s}
            r2 = lo.lun_res(lab[0], lab[1], d, s)
            ok2 = judge(a.Facts, e2, r2, bad, 'lunar to solar')
            n += 1
            if ok and ok2 and rng.random() < (0.001 if every else 0.004):
                keep += [dict(e, res=r), dict(e2, res=r2)]
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def walk_job(job):
    seed, count, length, keepit = job
    a = lo.api()
    n, bad, kept = 0, [], []
    for w in range(count):
        rng = random.Random(seed * 1000 + w)
        st = a.Walk0
        events = []
        cur = None
        while len(events) < length:
            op = rng.choice(('next',) * 8 + ('solarnext', 'refuse', 'refuse', 'reset')) if events else 'reset'
            if op == 'reset':
                dn, s = lo.rday(rng, a), rng.randrange(86400)
                e = {'op': op, 'n': dn, 's': s}
                if rng.random() < 0.5:
                    cur = call(lambda: mk(dn, s).getLunar())
                else:
                    y, m, d = a.LunarOf(dn)
                    cur = call(Lunar.fromYmdHms, y, m, d, *lo.hms(s)) if y > 0 else call(lambda: mk(dn, s).getLunar())
            elif op == 'refuse':
                y, m, d = a.LunarOf(st['n'])
                if y < 1:
                    continue
                d = rng.choice((30, 31, d, 0, 1))
                m = rng.choice((m, -m, -rng.randint(1, 12), 13, 0))
                e = {'op': op, 'y': y, 'm': m, 'd': d}
                x = call(Lunar.fromYmd, y, m, d)
                res = R({'refused': x == 'raise:Exception'}) if not isinstance(x, str) or x == 'raise:Exception' else R({'raised': x})
            else:
                k = rng.choice((1, -1, 1, -1, 2, 29, 30, -29, -30, 354, -355, 384, rng.randint(-60, 60), rng.randint(-4000, 4000), rng.randint(-300000, 300000)))
                if not co.FIRST <= st['n'] + k <= co.LAST:
                    continue
                e = {'op': op, 'k': k}
                cur = call(cur.next, k) if op == 'next' else call(lambda: cur.getSolar().next(k).getLunar())
            if op != 'refuse':
                res = R({'lunar': lo.lfull(cur), 'solar': full(call(cur.getSolar)) if not isinstance(cur, str) else cur})
            n += 1
            if not judge(lambda ev: a.WalkExpect(st, ev), dict(e, at=dict(st)), res, bad, 'lunar walk'):
                break
            st = a.WalkApply(st, e)
            events.append(dict(e, res=res))
        if keepit and w == 0 and len(events) == length:
            kept.append(events)
    return {'n': n, 'bad': bad[:5], 'keep': kept}


MODEL = '''CONSTANTS Years = {%s}
SPECIFICATION Spec
INVARIANTS MonthLengths Numbering LeapLacksTerm OneLeap Counts YearDays2 Unique Coordinates YearBorder
CHECK_DEADLOCK FALSE
'''


def models(ctx, count):
    ys = sorted(set(lo.REFORM) | set(ctx.rng.sample(range(1, 9999), count)) | {1582, 2020, 2033})
    ctx.model('MC_Lunar', MODEL % ', '.join(map(str, ys)), name='MC_Lunar %d years' % len(ys), workers=8, timeout=1500)


BIND = ('Walk0', 'WalkExpect', 'WalkApply')


def run(ctx):
    a = lo.api()
    co.specials()
    models(ctx, 8 if not ctx.thorough else 300)
    full_years = set(ctx.rng.sample(range(1, 10000), 1000)) | set(range(1900, 2101)) | set(lo.REFORM) | {1, 1581, 1582, 1583, 1600, 1700, 2023, 2033, 2034, 9999} if not ctx.thorough else set(range(1, 10000))
    k = ctx.sweep(day_job, [(y, y in full_years, ctx.seed) for y in range(1, 10000)], 'lunar dates', init=vlib.memo_years)
    w = ctx.sweep(walk_job, [(ctx.seed * 7001 + i, 3 if not ctx.thorough else 40, 100, True) for i in range(64)], 'walk steps', init=vlib.memo_years)
    ctx.rng.shuffle(k)
    k = k[:3000]
    ctx.rng.shuffle(w)
    w = [x for c in w[:40] for x in c]
    for e in k[:3] + w[:3]:
        ctx.sample(e)
    ctx.trace('Trace_Lunar', k, bind='Facts', chunk=100)
    ctx.trace('Trace_LunarWalk', w, bind=BIND, chunk=100)
    vlib.self_test(ctx, 'Trace_LunarWalk', w, 100, bind=BIND)
    ctx.assumptions += ['solar days of years 1..9999; lunar years 1..9999', 'the new-moon days and principal-term days of the release are taken as given (spec/data/almanac.json)',
                        'year objects are memoised inside the recorder; the cache itself is C15']
