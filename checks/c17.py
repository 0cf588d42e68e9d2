"""C17: seasonal counts."""
import c09
import civilobs as co
import dateobs as do
import lunarobs as lo
import termobs as to
import vlib
from tla2py import R
from vlib import call

NONE = R({'name': '', 'index': 0, 'text': '', 'full': ''})


def counted(f):
    x = call(f)
    if x is None:
        return NONE
    if isinstance(x, str):
        return x
    return R({'name': call(x.getName), 'index': call(x.getIndex), 'text': call(x.toString) if call(str, x) == call(x.toString) else 'str differs', 'full': call(x.toFullString)})


def observe(l):
    return R({'nines': counted(l.getShuJiu), 'dog': counted(l.getFu), 'pentad': call(l.getWuHou), 'hou': call(l.getHou),
              'moon': call(l.getYueXiang), 'six': call(l.getLiuYao), 'season': call(l.getSeason)})


def special(a, y, rng):
    """the edges of the counted days"""
    ws, ss, la = (a.TermN[a.TermIx(y, i) - 1] for i in (1, 13, 16))
    g, e = a.Geng(ss) + 20, a.Geng(la)
    w2 = a.TermN[a.TermIx(y, 25) - 1]
    k = a.TermN[a.TermIx(y, rng.randrange(1, 25)) - 1]
    out = [ws + 80, ws + 81, w2 - 1, w2, g - 1, g, g + 9, g + 10, e - 1, e, e + 9, e + 10, k + 4, k + 5, k + 9, k + 10, k + 14]
    return out + [ws + rng.randrange(0, 81), w2 + rng.randrange(0, 10), g + rng.randrange(0, 40)]


MODEL = '''CONSTANTS Starts = {%s} Length = %d
SPECIFICATION Spec
INVARIANTS DogSeason DogStart DogLast PentadFive
PROPERTIES NinesStep DogStep PentadStep SixStep
CHECK_DEADLOCK FALSE
'''
job = do.Job('SeasonApi', 'season', observe, 'seasonal counts', special=special, keep=0.002)
walk = do.Walk('SeasonApi', observe, 'seasonal counts', hourp=0.1)


def run(ctx):
    a = lo.api('SeasonApi')
    c09.api()
    co.api()
    to.api()
    ys = ctx.rng.sample(range(2, 9990), 6) + [1582, 239, 2023] if not ctx.thorough else sorted(ctx.rng.sample(range(2, 9990), 150)) + [1582, 239, 2023, 8, 23]
    ctx.model('MC_Seasons', MODEL % (', '.join(str(a.DN(y, 1, 1)) for y in ys), 500), workers=8, timeout=2500, heap='6g')
    k = ctx.sweep(job, [(y, ctx.seed, 4 if not ctx.thorough else -1) for y in do.years(ctx)], 'dates', init=vlib.memo_years)
    w = ctx.sweep(walk, [(ctx.seed * 619 + i, 3 if not ctx.thorough else 40, 60) for i in range(64)], 'walk steps', init=vlib.memo_years)
    ctx.rng.shuffle(k)
    k = k[:800]
    w = [x for c in w[:16] for x in c]
    for e in k[:3] + w[:3]:
        ctx.sample(e)
    ctx.trace('Trace_Season', k, bind='Facts', chunk=50)
    ctx.trace('Trace_SeasonWalk', w, bind=do.BIND, chunk=60)
    vlib.self_test(ctx, 'Trace_Season', k, 50, bind='Facts')
    vlib.self_test(ctx, 'Trace_SeasonWalk', w, 60, bind=do.BIND)
    ctx.assumptions += ['days within three seconds of a term at midnight are skipped']
