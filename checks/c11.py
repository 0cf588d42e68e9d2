"""C11: searching dates by eight characters."""
import datetime
import random

import c09
import civilobs as co
import lunarobs as lo
import termobs as to
import vlib
from civilobs import mk
from lunar_python import Solar
from tla2py import R
from vlib import call, judge

NOW = datetime.datetime.now().year


def api():
    return lo.api('SearchApi')


def search_res(names, sect, base):
    if (sect, base) == (2, 1900):
        x = call(Solar.fromBaZi, *names)
    elif base == 1900:
        x = call(Solar.fromBaZi, *names, sect)
    else:
        x = call(Solar.fromBaZi, *names, sect, base)
    if isinstance(x, str):
        return R({'found': (), 'ok': x})
    return R({'found': tuple(to.inst(s) for s in x), 'ok': True})


def ask(a, four, sect, base):
    e = {'op': 'search', 'four': tuple(four), 'sect': sect, 'base': base, 'now': NOW}
    return e, search_res([a.PillarName(p) for p in four], sect, base)


def own_job(job):
    """moments search for their own pillars"""
    seed, count = job
    a = api()
    rng = random.Random(seed)
    bad, n, keep = [], 0, []
    for _ in range(count):
        r = rng.random()
        if r < 0.5:                       # around a section term, inside one period
            y = rng.randint(1900, NOW - 1)
            k = a.TermIx(y, rng.randrange(0, 24, 2))
            o = (a.TermN[k - 1], a.TermS[k - 1])
            n_, s = a.MAdd(o[0], o[1], rng.choice((-1, 1)) * rng.choice((5, 60, 600, 3000, 7000, 20000)))
        else:
            y = rng.randint(1900, NOW - 1) if r < 0.8 else rng.randint(3, NOW - 1)
            n_ = a.DN(y, 1, 1) + (rng.randrange(0, 365) if rng.random() < 0.6 else rng.choice((0, 1, 3, 5, 20, 33, 34, 35, 36, 358, 364)))
            s = c09.rs(rng)
        if not to.clear(n_, s, 4):
            continue
        y = a.DateOf(n_)[0]
        sect = rng.choice((1, 2))
        base = 1900 if y >= 1900 and rng.random() < 0.5 else rng.choice((y, y - 1, max(2, y - rng.randint(0, 130))))
        e, r = ask(a, a.FourAt(n_, s, sect), sect, max(2, base))
        n += 1
        if judge(a.Facts, dict(e, res=r, of=a.Full(n_, s)), r, bad, 'search for own pillars') and rng.random() < 0.05:
            keep.append(dict(e, res=r))
        if rng.random() < 0.3:           # nearly the same question, and the same once more
            four = list(e['four'])
            ways = [(four, 3 - sect, base), (four, sect, base), (four, sect, rng.choice((y, 1900, max(2, y - 60), min(NOW, y + 1))))]
            for i in range(4):
                ways.append((four[:i] + [(four[i] + rng.choice((1, 10, 12, 30, 48))) % 60] + four[i + 1:], sect, base))
            rng.shuffle(ways)
            for f, x, b in ways[:4]:
                e, r = ask(a, f, x, max(2, b))
                n += 1
                judge(a.Facts, dict(e, res=r), r, bad, 'search after a search')
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def any_job(job):
    """arbitrary combinations, most of which break a stem rule or do not occur"""
    seed, count = job
    a = api()
    rng = random.Random(seed)
    bad, n, keep = [], 0, []
    for _ in range(count):
        y, d = rng.randrange(60), rng.randrange(60)
        if rng.random() < 0.6:
            i, z = rng.randint(1, 12), rng.randrange(12)
            four = (y, a.Pillar((y % 10 * 2 + i + 1) % 10, (i + 1) % 12), d, a.Pillar(((d % 10) % 5 * 2 + z + (0 if rng.random() < 0.8 else 2)) % 10, z))
        else:
            four = (y, rng.randrange(60), d, rng.randrange(60))
        e, r = ask(a, four, rng.choice((1, 2)), rng.choice((1900, 1900, rng.randint(3, NOW), 1583, NOW, NOW - 60)))
        n += 1
        if judge(a.Facts, dict(e, res=r), r, bad, 'search') and rng.random() < 0.04:
            keep.append(dict(e, res=r))
    return {'n': n, 'bad': bad[:5], 'keep': keep}


MODEL = '''CONSTANTS Starts = {%s} Span = %d
SPECIFICATION Spec
INVARIANTS FindsItself OneEach Tiles
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    a = api()
    to.api()
    co.api()
    q = not ctx.thorough
    ys = [2023, ctx.rng.randint(1850, 2020)] if q else [2023, 1582, 239] + [ctx.rng.randint(5, 2020) for _ in range(20)]
    ctx.model('MC_Search', MODEL % (', '.join(str(a.DN(y, 1, 25)) for y in ys), 45 if q else 370), workers=8, timeout=2500, heap='6g')
    k = ctx.sweep(own_job, [(ctx.seed * 3571 + i, 80) for i in range(64 if q else 1200)], 'own-pillar searches', init=vlib.memo_years)
    k += ctx.sweep(any_job, [(ctx.seed * 3581 + 7000 + i, 80) for i in range(64 if q else 1200)], 'arbitrary searches', init=vlib.memo_years)
    ctx.rng.shuffle(k)
    k = k[:500]
    for e in k[:4]:
        ctx.sample(e)
    ctx.trace('Trace_Search', k, bind='Facts', chunk=25)
    vlib.self_test(ctx, 'Trace_Search', k, 25, bind='Facts')
    ctx.assumptions += ['base year from 2 on; searches up to the present year %d' % NOW, 'periods overlapping a month by less than three seconds may or may not be found']
