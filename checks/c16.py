"""C16: almanac attributes of days and hours."""
import c09
import civilobs as co
import dateobs as do
import lunarobs as lo
import termobs as to
import vlib
from tla2py import R
from vlib import call, tup

XUN = tuple('get%sXun%s' % c09.split(v) for v in c09.V)
VOID = tuple('get%sXunKong%s' % c09.split(v) for v in c09.V)


def q(o, *names):
    return tuple(tup(call(getattr(o, x))) for x in names)


def pair(o, name, *a):
    return (call(getattr(o, name), *a), call(getattr(o, name + 'Desc'), *a))


def attr(o, p, nayin='NaYin'):
    """p: 'Day', 'Time', or '' """
    def fu():
        f = 'get%sPositionFu' % p
        if p or nayin is not None:
            return pair(o, f) + pair(o, f, 1) + pair(o, f, 2)
        x = pair(o, f)      # the alias takes no convention
        return x + pair(o, 'getDayPositionFu', 1) + x
    g = 'get' + p
    return R({'xi': pair(o, g + 'PositionXi'), 'yanggui': pair(o, g + 'PositionYangGui'), 'yingui': pair(o, g + 'PositionYinGui'), 'fu': fu(), 'cai': pair(o, g + 'PositionCai'),
              'chong': q(o, g + 'Chong', g + 'ChongGan', g + 'ChongGanTie', g + 'ChongShengXiao', g + 'ChongDesc'), 'sha': call(getattr(o, g + 'Sha')),
              'nayin': call(getattr(o, (g if p else 'getDay') + 'NaYin' if nayin is None or p else g + 'NaYin'))})


def duke(o, unit):
    f = 'get%sPositionTaiSui' % unit
    return (pair(o, f), pair(o, f, 1), pair(o, f, 2), pair(o, f, 3))


def observe(l):
    return R({'day': attr(l, 'Day'), 'alias': attr(l, '', None), 'time': attr(l, 'Time'),
              'nayin': q(l, 'getYearNaYin', 'getMonthNaYin', 'getDayNaYin', 'getTimeNaYin'), 'xun': q(l, *XUN), 'void': q(l, *VOID),
              'pengzu': q(l, 'getPengZuGan', 'getPengZuZhi'), 'officer': call(l.getZhiXing),
              'spirit': q(l, 'getDayTianShen', 'getDayTianShenType', 'getDayTianShenLuck'), 'hourspirit': q(l, 'getTimeTianShen', 'getTimeTianShenType', 'getTimeTianShenLuck'),
              'lodge': q(l, 'getXiu', 'getXiuLuck', 'getXiuSong', 'getZheng', 'getAnimal', 'getGong', 'getShou'),
              'dukeyear': duke(l, 'Year'), 'dukemonth': duke(l, 'Month'), 'dukeday': duke(l, 'Day'),
              'foetus': q(l, 'getDayPositionTai', 'getMonthPositionTai'), 'fortune': call(l.getDayLu)})


MODEL = '''CONSTANTS Start = %d Length = %d
SPECIFICATION Spec
INVARIANTS OfficerFull SpiritsFull SpiritTypes ClashMutual ClashControls ShaTrine LodgeOfWeek LodgeTables FortuneTable FortuneBack ShaTable DukeOwn HourFive
PROPERTY OfficerSteps
CHECK_DEADLOCK FALSE
'''
job = do.Job('AttrApi', 'attr', observe, 'almanac attributes')
walk = do.Walk('AttrApi', observe, 'almanac attributes')


def run(ctx):
    lo.api('AttrApi')
    c09.api()
    co.api()
    to.api()
    ctx.model('MC_Attrs', MODEL % (ctx.rng.randrange(1000000), 7 if not ctx.thorough else 60), workers=8, timeout=2500)
    k = ctx.sweep(job, [(y, ctx.seed, 8 if not ctx.thorough else -1) for y in do.years(ctx)], 'dates', init=vlib.memo_years)
    w = ctx.sweep(walk, [(ctx.seed * 619 + i, 3 if not ctx.thorough else 40, 60) for i in range(64)], 'walk steps', init=vlib.memo_years)
    ctx.rng.shuffle(k)
    k = k[:400]
    w = [x for c in w[:16] for x in c]
    for e in k[:2] + w[:2]:
        ctx.sample(e)
    ctx.trace('Trace_Attr', k, bind='Facts', chunk=50)
    ctx.trace('Trace_AttrWalk', w, bind=do.BIND, chunk=60)
    vlib.self_test(ctx, 'Trace_Attr', k, 50, bind='Facts')
    vlib.self_test(ctx, 'Trace_AttrWalk', w, 60, bind=do.BIND)
    ctx.assumptions += ['days within three seconds of a term at midnight, and moments within three seconds of a term, are skipped']
