"""C20: Buddhist and Taoist calendars."""
import c09
import civilobs as co
import dateobs as do
import lunarobs as lo
import termobs as to
import vlib
from c16 import q
from lunar_python import Foto, Tao
from tla2py import R
from vlib import call


def ymd(l):
    if isinstance(l, str):
        return l
    return tuple(call(getattr(l, g)) for g in ('getYear', 'getMonth', 'getDay', 'getHour', 'getMinute', 'getSecond'))


def sol(l):
    return ymd(call(lambda: l.getSolar()))


def own(o):
    """a Foto or Tao date's own fields, the time being its lunar date's"""
    if isinstance(o, str):
        return o
    l = call(o.getLunar)
    if isinstance(l, str):
        return l
    return q(o, 'getYear', 'getMonth', 'getDay') + ymd(l)[3:]


def fest(fs, *names):
    if not isinstance(fs, list):
        return fs if isinstance(fs, str) else 'not a list'
    return tuple(q(f, *names) + ((call(f.toString) if call(f.toString) == call(str, f) else 'str differs'), call(f.toFullString)) for f in fs)


def both(cls, l, o):
    """rebuilt from its own fields, with and without the time"""
    f = own(o)
    if isinstance(f, str) or any(isinstance(x, str) for x in f):
        return f, f
    a, b = call(cls.fromYmdHms, *f), call(cls.fromYmd, *f[:3])
    return tuple((own(x), sol(call(x.getLunar) if not isinstance(x, str) else x)) for x in (a, b))


def foto(l):
    o = call(l.getFoto)
    if isinstance(o, str):
        return R({'raised': o})
    o2 = call(Foto.fromLunar, l)
    re, plain = both(Foto, l, o)
    return R({'fields': own(o) if own(o) == own(o2) else 'forms differ', 'lunar': ymd(call(o.getLunar)), 'solar': sol(call(o.getLunar)), 'rebuilt': re, 'plain': plain,
              'festivals': fest(call(o.getFestivals), 'getName', 'getResult', 'isEveryMonth', 'getRemark'), 'other': tuple(call(o.getOtherFestivals)),
              'fasts': q(o, 'isMonthZhai', 'isDayYangGong', 'isDayZhaiShuoWang', 'isDayZhaiSix', 'isDayZhaiTen', 'isDayZhaiGuanYin'),
              'lodge': q(o, 'getXiu', 'getXiuLuck', 'getXiuSong', 'getZheng', 'getAnimal', 'getGong', 'getShou')})


def tao(l):
    o = call(l.getTao)
    if isinstance(o, str):
        return R({'raised': o})
    o2 = call(Tao.fromLunar, l)
    re, plain = both(Tao, l, o)
    return R({'fields': own(o) if own(o) == own(o2) else 'forms differ', 'lunar': ymd(call(o.getLunar)), 'solar': sol(call(o.getLunar)), 'rebuilt': re, 'plain': plain,
              'festivals': fest(call(o.getFestivals), 'getName', 'getRemark'),
              'days': q(o, 'isDaySanHui', 'isDaySanYuan', 'isDayBaJie', 'isDayWuLa', 'isDayBaHui', 'isDayMingWu', 'isDayAnWu', 'isDayWu', 'isDayTianShe')})


def observe(l):
    return R({'foto': foto(l), 'tao': tao(l)})


def special(a, y, rng):
    """a lunar month of each year whole, a leap month if there is one, term days"""
    out = []
    f, e = a.FirstMoon(y), a.FirstMoon(y + 1)
    i = rng.randrange(f, e)
    ms = [i] + [j for j in range(f, e) if a.Label(j)[1] < 0 and rng.random() < 0.3]
    for j in ms:
        days = list(range(a.Moons[j - 1], a.Moons[j]))
        out += [days[27], days[-1]] + rng.sample(days, 12)
    k = a.TermIx(y, rng.randrange(1, 25))
    out.append(a.TermN[k - 1])
    return out


MODEL = '''CONSTANTS Starts = {%s} Length = %d
SPECIFICATION Spec
INVARIANTS Fasts WuTen Nodes LeapShares YangGongs Meet
PROPERTIES WuStep LodgeStep
CHECK_DEADLOCK FALSE
'''
job = do.Job('FaithApi', 'faith', observe, 'Buddhist and Taoist dates', special=special, keep=0.003)
walk = do.Walk('FaithApi', observe, 'Buddhist and Taoist dates', hourp=0.2)


def run(ctx):
    a = lo.api('FaithApi')
    c09.api()
    co.api()
    to.api()
    ys = ctx.rng.sample(range(300, 1580), 1) + ctx.rng.sample(range(1583, 9990), 2) + [2023] if not ctx.thorough else sorted(ctx.rng.sample(range(1583, 9990), 40)) + ctx.rng.sample(range(300, 1580), 20) + [2023]
    ctx.model('MC_Faith', MODEL % (', '.join(str(a.DN(y, 1, 1)) for y in ys), 760), workers=8, timeout=2500, heap='6g')
    k = ctx.sweep(job, [(y, ctx.seed, 2 if not ctx.thorough else -1) for y in do.years(ctx)], 'dates', init=vlib.memo_years)
    w = ctx.sweep(walk, [(ctx.seed * 619 + i, 3 if not ctx.thorough else 40, 60) for i in range(64)], 'walk steps', init=vlib.memo_years)
    ctx.rng.shuffle(k)
    k = k[:400]
    w = [x for c in w[:16] for x in c]
    for e in k[:2] + w[:2]:
        ctx.sample(e)
    ctx.trace('Trace_Faith', k, bind='Facts', chunk=50)
    ctx.trace('Trace_FaithWalk', w, bind=do.BIND, chunk=60)
    vlib.self_test(ctx, 'Trace_Faith', k, 50, bind='Facts')
    vlib.self_test(ctx, 'Trace_FaithWalk', w, 60, bind=do.BIND)
    ctx.assumptions += ['days within three seconds of a term at midnight are skipped']
