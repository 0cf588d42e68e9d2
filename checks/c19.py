"""C19: festivals."""
import c09
import civilobs as co
import dateobs as do
import lunarobs as lo
import termobs as to
import vlib
from tla2py import R
from vlib import call


def ask(f, spoil):
    """a list, as a tuple; the caller's list is then spoiled"""
    q = call(f)
    if not isinstance(q, list):
        return q if isinstance(q, str) else 'not a list'
    t = tuple(q)
    if spoil:
        del q[:1]
        q.append('顽')
    return t


def lists(l, s, spoil):
    return R({'solar': ask(s.getFestivals, spoil), 'solarother': ask(s.getOtherFestivals, spoil), 'lunar': ask(l.getFestivals, spoil),
              'lunarother': ask(l.getOtherFestivals, spoil)})


def observe(l):
    s = l.getSolar()
    a = lists(l, s, True)
    b = lists(l, s, True)
    l2 = call(lambda: co.mk(_n(s), 0).getLunar())
    c = lists(l2, l2.getSolar(), False) if not isinstance(l2, str) else R({'raised': l2})
    return R({'first': a, 'again': b, 'equal': c, 'sign': call(s.getXingZuo)})


def _n(s):
    return co.api().DN(s.getYear(), s.getMonth(), s.getDay())


def special(a, y, rng):
    """the borders of every rule"""
    out, b, e = [], a.DN(y, 1, 1), a.DN(y, 12, 31)
    for no, at in ((4, None), (16, None)):
        k = a.TermIx(y, no)
        if 0 < k:
            w = a.FifthWu(a.TermN[k - 1])
            out += [w - 10, w - 1, w, w + 1, w + 10]
    k = a.TermIx(y, 8)
    out += [a.TermN[k - 1] - 2, a.TermN[k - 1] - 1, a.TermN[k - 1]]
    f = a.FirstMoon(y)
    for i in (f, a.FirstMoon(y + 1)):
        m = a.Moons[i - 1]
        out += [m - 2, m - 1, m]
    for m in rng.sample(range(1, 13), 5):
        for d in rng.sample(range(19, 26), 1):
            out.append(a.DN(y, m, d))
    for m in (3, 5, 6, 9, 10, 11):                         # a whole month of weekday rules in turn
        if rng.random() < 0.03:
            out += range(a.DN(y, m, 1), a.DN(y, m, 28) + 4)
    i = rng.randrange(a.FirstMoon(y), a.FirstMoon(y + 1))   # a whole lunar month
    if rng.random() < 0.06:
        out += range(a.Moons[i - 1], a.Moons[i])
    return [x for x in out if b <= x <= e]


MODEL = '''CONSTANTS Starts = {%s} Length = %d
SPECIFICATION Spec
INVARIANTS Once AllSeen LunarSeen WeekRule FifthIs
PROPERTIES SignStep EveStep
CHECK_DEADLOCK FALSE
'''
job = do.Job('FestivalApi', 'fest', observe, 'festivals', special=special, keep=0.002)
walk = do.Walk('FestivalApi', observe, 'festivals', hourp=0.1)


def run(ctx):
    a = lo.api('FestivalApi')
    c09.api()
    co.api()
    to.api()
    ys = ctx.rng.sample(range(300, 1580), 1) + ctx.rng.sample(range(1583, 9990), 2) + [2024] if not ctx.thorough else sorted(ctx.rng.sample(range(1583, 9990), 40)) + ctx.rng.sample(range(300, 1580), 20) + [2024]
    ctx.model('MC_Festivals', MODEL % (', '.join(str(a.DN(y, 1, 1)) for y in ys), 780), workers=8, timeout=2500, heap='6g')
    k = ctx.sweep(job, [(y, ctx.seed, 2 if not ctx.thorough else -1) for y in do.years(ctx)], 'dates', init=vlib.memo_years)
    w = ctx.sweep(walk, [(ctx.seed * 619 + i, 3 if not ctx.thorough else 40, 60) for i in range(64)], 'walk steps', init=vlib.memo_years)
    ctx.rng.shuffle(k)
    full = [e for e in k if any(e['res']['first'].values())]
    k = full[:400] + k[:200]
    w = [x for c in w[:16] for x in c]
    for e in k[:3] + w[:3]:
        ctx.sample(e)
    ctx.trace('Trace_Festival', k, bind='Facts', chunk=75)
    ctx.trace('Trace_FestivalWalk', w, bind=do.BIND, chunk=60)
    vlib.self_test(ctx, 'Trace_Festival', k, 75, bind='Facts')
    vlib.self_test(ctx, 'Trace_FestivalWalk', w, 60, bind=do.BIND)
    ctx.assumptions += ['days within three seconds of a term at midnight are skipped']
