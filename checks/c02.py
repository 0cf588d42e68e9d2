"""C02: Julian day conversion."""
import random
from fractions import Fraction

import civilobs as co
from civilobs import call, full
from tla2py import R
from lunar_python import Solar
from vlib import judge

MS = 86400000


def proj(j):
    """a Julian day as <<day number, milliseconds since midnight>>, to the nearest millisecond"""
    if isinstance(j, str):
        return j, j
    return divmod(round((Fraction(j) + Fraction(1, 2)) * MS), MS)


def jd_res(n, s):
    x = co.mk(n, s)
    j = call(x.getJulianDay)
    a, b = proj(j)
    return R({'jdn': a, 'ms': b, 'back': full(call(Solar.fromJulianDay, j)) if not isinstance(j, str) else j})


EDGE = (0, 499, 501, 999, 1000, 59499, 59501, 59999, 3599499, 3599501, 43199499, 43199501, 43199999, 43200000, 86340000, 86398499, 86398501, 86399499, 86399501, 86399999)
EDGES = (0, 1, 59, 60, 3599, 3600, 43199, 43200, 43201, 86340, 86399)


def job(j):
    seed, lo, hi, step, times = j
    a = co.api()
    rng = random.Random(seed * 7919 + lo)
    bad, n, keep = [], 0, []
    sp = {x + o for x in co.specials() for o in (-1, 0, 1)}
    for d in range(lo, hi, step):
        hot = d in sp or d % 997 == 0
        ss = list(EDGES) if hot else []
        mm = list(EDGE) if hot else []
        for _ in range(times):
            ss.append(rng.randrange(86400))
            v = rng.randrange(MS)
            mm.append(v if abs(v % 1000 - 500) > 5 else v + 20)
            if rng.random() < 0.05:
                mm.append(rng.choice(EDGE))
        for s in ss:
            judge(lambda e: a.JdFacts(e['n'], e['s']), {'op': 'jd', 'n': d, 's': s}, jd_res(d, s), bad, 'julian day')
            n += 1
            if rng.random() < 0.0005:
                keep.append({'op': 'jd', 'n': d, 's': s, 'res': jd_res(d, s)})
        for ms in mm:
            if ms >= MS or (d == co.LAST and ms >= MS - 500):
                continue
            ev = {'op': 'fromjd', 'n': d, 'ms': ms}
            res = R({'full': full(call(Solar.fromJulianDay, d - 0.5 + ms / MS))})
            judge(lambda e: R({'full': a.FromJd(e['n'], e['ms'])}), ev, res, bad, 'from julian day')
            n += 1
            if rng.random() < 0.0005:
                keep.append(dict(ev, res=res))
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def run(ctx):
    co.api()
    co.specials()
    co.models(ctx)
    jobs = [(ctx.seed, d, min(d + 20000, co.LAST + 1), 1, 1 if not ctx.thorough else 12)
            for d in range(co.FIRST, co.LAST + 1, 20000)]
    sp = sorted(set(co.specials()))
    jobs += [(ctx.seed, d, d + 1, 1, 3) for d in sp]
    k = ctx.sweep(job, jobs, 'julian days')
    ctx.rng.shuffle(k)
    k = k[:6000 if not ctx.thorough else 40000]
    for e in k[:4]:
        ctx.sample(e)
    ctx.trace('Trace_CivilFacts', k, chunk=200)
    co.self_test(ctx, 'Trace_CivilFacts', k, 200)
    ctx.assumptions += ['dates in years 1..9999', 'Julian days closer than 5 ms to a half second are not judged (floating point ties)']
