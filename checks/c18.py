"""C18: nine stars."""
import random

import c09
import civilobs as co
import dateobs as do
import lunarobs as lo
import termobs as to
import vlib
from lunar_python import LunarMonth, LunarYear, NineStar
from tla2py import R
from vlib import call, judge

GET = dict(index='getIndex', number='getNumber', color='getColor', wuxing='getWuXing', position='getPosition', posdesc='getPositionDesc', beidou='getNameInBeiDou',
           xuankong='getNameInXuanKong', qimen='getNameInQiMen', taiyi='getNameInTaiYi', luckqimen='getLuckInQiMen', luckxuankong='getLuckInXuanKong',
           yinyang='getYinYangInQiMen', typetaiyi='getTypeInTaiYi', bamen='getBaMenInQiMen', song='getSongInTaiYi', full='toFullString')


def star(x):
    if isinstance(x, str):
        return R({'raised': x})
    r = {k: call(getattr(x, g)) for k, g in GET.items()}
    r['text'] = call(x.toString) if call(x.toString) == call(str, x) else 'str differs'
    return R(r)


def ix(f, *a):
    x = call(f, *a)
    return x if isinstance(x, str) else call(x.getIndex)


def observe(l):
    def sects(f):
        return (ix(f), ix(f, 1), ix(f, 2), ix(f, 3))
    return R({'year': sects(l.getYearNineStar), 'month': sects(l.getMonthNineStar), 'day': star(call(l.getDayNineStar)), 'hour': ix(l.getTimeNineStar),
              'hourobject': ix(lambda: l.getTime().getNineStar()), 'lunaryear': ix(lambda: LunarYear.fromYear(l.getYear()).getNineStar())})


def special(a, y, rng):
    """around the turning days and the solstices"""
    out = []
    for i in (1, 13, 25):
        j = a.TermIx(y, i)
        t, s = a.Turn(j), a.TermN[j - 1]
        out += [t - 1, t, t + 1, s - 1, s, t + rng.randrange(0, 180), t - rng.randrange(0, 60)]
    b = a.DN(y, 1, 1)
    return out + [b, b + 1, a.DN(y, 12, 31), b + rng.randrange(2, 21)]


def table_job(job):
    y, seed, _ = job
    a = lo.api('StarApi')
    bad, n, keep = [], 0, []
    rng = random.Random(seed + y)

    def do_(e, r):
        nonlocal n
        n += 1
        if judge(a.Facts, e, r, bad, 'nine stars') and rng.random() < 0.01:
            keep.append(dict(e, res=r))
    ly = call(LunarYear.fromYear, y)
    do_({'op': 'yearstar', 'y': y}, R({'star': ix(lambda: ly.getNineStar())}))
    for m in call(lambda: ly.getMonthsInYear()):
        do_({'op': 'monthstar', 'y': y, 'm': m.getMonth()}, R({'star': ix(lambda: LunarMonth.fromYm(y, m.getMonth()).getNineStar())}))
    return {'n': n, 'bad': bad[:5], 'keep': keep}


MODEL = '''CONSTANTS Starts = {%s} Length = %d
SPECIFICATION Spec
INVARIANTS TurnNear
PROPERTIES DayStep RunsAlternate HourStep HourJoin MonthStep YearStep
CHECK_DEADLOCK FALSE
'''
job = do.Job('StarApi', 'star', observe, 'nine stars', special=special, keep=0.002)
walk = do.Walk('StarApi', observe, 'nine stars')


def run(ctx):
    a = lo.api('StarApi')
    c09.api()
    co.api()
    to.api()
    ys = ctx.rng.sample(range(2, 9990), 2) + [1905, 2023] if not ctx.thorough else sorted(ctx.rng.sample(range(2, 9990), 60)) + [1582, 239, 2023, 8, 23]
    ctx.model('MC_Stars', MODEL % (', '.join(str(a.DN(y, 1, 1)) for y in ys), 420), workers=8, timeout=2500, heap='6g')
    bad = []
    for i in range(9):
        ctx.eval('star objects')
        judge(a.Facts, {'op': 'nine', 'i': i}, star(call(NineStar.fromIndex, i)), bad, 'star attributes')
    for b in bad:
        ctx.violation(*b)
    k = ctx.sweep(job, [(y, ctx.seed, 3 if not ctx.thorough else -1) for y in do.years(ctx)], 'dates', init=vlib.memo_years)
    k2 = ctx.sweep(table_job, [(y, ctx.seed, 0) for y in do.years(ctx)], 'lunar years and months', init=vlib.memo_years)
    w = ctx.sweep(walk, [(ctx.seed * 619 + i, 3 if not ctx.thorough else 40, 60) for i in range(64)], 'walk steps', init=vlib.memo_years)
    ctx.rng.shuffle(k)
    k = k[:600] + k2[:200]
    w = [x for c in w[:16] for x in c]
    for e in k[:3] + w[:3]:
        ctx.sample(e)
    ctx.trace('Trace_Star', k, bind='Facts', chunk=50)
    ctx.trace('Trace_StarWalk', w, bind=do.BIND, chunk=60)
    vlib.self_test(ctx, 'Trace_Star', k, 50, bind='Facts')
    vlib.self_test(ctx, 'Trace_StarWalk', w, 60, bind=do.BIND)
    ctx.assumptions += ['days within three seconds of a term at midnight are skipped']
