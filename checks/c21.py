"""C21: daily and hourly advice."""
import c09
import civilobs as co
import dateobs as do
import lunarobs as lo
import termobs as to
import vlib
from lunar_python.util import LunarUtil
from c19 import ask
from tla2py import R
from vlib import call, judge


def facts(l):
    def a(f, *x):
        return ask(lambda: f(*x), False)
    t = call(l.getTime)
    return R({'good': (a(l.getDayYi), a(l.getDayYi, 1), a(l.getDayYi, 2)), 'bad': (a(l.getDayJi), a(l.getDayJi, 1), a(l.getDayJi, 2)),
              'lucky': a(l.getDayJiShen), 'unlucky': a(l.getDayXiongSha), 'hour': (a(l.getTimeYi), a(l.getTimeJi)),
              'period': (a(t.getYi), a(t.getJi)) if not isinstance(t, str) else t})


def observe(l):
    return R({'first': facts(l), 'again': facts(l)})


def special(a, y, rng):
    """first days of solar months, where the two month conventions part"""
    return [a.TermN[a.TermIx(y, 2 * i) - 1] + rng.choice((-1, 0, 0, 1)) for i in range(1, 13)]


def table_job(job):
    op, xs = job
    a = lo.api('AdviceApi')
    bad, keep = [], []
    for x in xs:
        for i in range(60):
            if op == 'day':
                e = {'op': op, 'm': x, 'd': i}
                r = {'good': ask(lambda: LunarUtil.getDayYi(p(x), p(i)), False), 'bad': ask(lambda: LunarUtil.getDayJi(p(x), p(i)), False)}
            elif op == 'spirit':
                e = {'op': op, 'm': x, 'd': i}
                r = {'lucky': ask(lambda: LunarUtil.getDayJiShen(x, p(i)), False), 'unlucky': ask(lambda: LunarUtil.getDayXiongSha(x, p(i)), False)}
            else:
                e = {'op': op, 'd': i, 'z': x}
                h = p(a.HourOf(i, x))
                r = {'good': ask(lambda: LunarUtil.getTimeYi(p(i), h), False), 'bad': ask(lambda: LunarUtil.getTimeJi(p(i), h), False)}
            if judge(a.Facts, e, R(r), bad, 'advice table') and i % 10 == x % 10:
                keep.append(dict(e, res=R(r)))
    return {'n': len(xs) * 60, 'bad': bad[:5], 'keep': keep}


def p(i):
    return '甲乙丙丁戊己庚辛壬癸'[i % 10] + '子丑寅卯辰巳午未申酉戌亥'[i % 12]


MODEL = '''SPECIFICATION Spec
INVARIANTS DayOk HourOk SpiritOk NamesOk Rules
CHECK_DEADLOCK FALSE
'''
job = do.Job('AdviceApi', 'advice', observe, 'advice of a date', special=special, keep=0.003)
walk = do.Walk('AdviceApi', observe, 'advice of a date')


def run(ctx):
    lo.api('AdviceApi')
    c09.api()
    co.api()
    to.api()
    ctx.model('MC_Advice', MODEL, workers=4)
    k = ctx.sweep(table_job, [('day', tuple(range(i, i + 6))) for i in range(0, 60, 6)] + [('hour', tuple(range(12)))] + [('spirit', tuple(range(1, 13))), ('spirit', tuple(range(-12, 0)))], 'table entries')
    ctx.rng.shuffle(k)
    k = k[:300]
    k2 = ctx.sweep(job, [(y, ctx.seed, 2 if not ctx.thorough else -1) for y in do.years(ctx, 2)], 'moments', init=vlib.memo_years)
    ctx.rng.shuffle(k2)
    k += k2[:200]
    w = ctx.sweep(walk, [(ctx.seed * 619 + i, 3 if not ctx.thorough else 40, 60) for i in range(64)], 'walk steps', init=vlib.memo_years)
    w = [x for c in w[:16] for x in c]
    for e in k[:2] + k[-1:] + w[:2]:
        ctx.sample(e)
    ctx.trace('Trace_Advice', k, bind='Facts', chunk=50)
    ctx.trace('Trace_AdviceWalk', w, bind=do.BIND, chunk=60)
    vlib.self_test(ctx, 'Trace_Advice', k, 50, bind='Facts')
    vlib.self_test(ctx, 'Trace_AdviceWalk', w, 60, bind=do.BIND)
    ctx.assumptions += ['days within three seconds of a term at midnight are skipped', 'pillar pairs that no hour of a day can have are not judged']
