"""C10: eight-character charts."""
import random

import c09
import civilobs as co
import dateobs
import lunarobs as lo
import termobs as to
import vlib
from civilobs import mk
from lunar_python import EightChar
from tla2py import R
from vlib import call, judge, tup

P = ('Year', 'Month', 'Day', 'Time')


def api():
    return lo.api('ChartApi')


def each(o, pat, *a):
    return tuple(tup(call(getattr(o, pat % p), *a)) for p in P)


def chart_res(c):
    if isinstance(c, str):
        return R({'raised': c})
    pal = ('TaiYuan', 'TaiXi', 'MingGong', 'ShenGong')
    return R({'sect': call(c.getSect), 'pillars': each(c, 'get%s'), 'gan': each(c, 'get%sGan'), 'zhi': each(c, 'get%sZhi'), 'hide': each(c, 'get%sHideGan'),
              'wuxing': each(c, 'get%sWuXing'), 'nayin': each(c, 'get%sNaYin'), 'gods': each(c, 'get%sShiShenGan'), 'zhigods': each(c, 'get%sShiShenZhi'),
              'stage': each(c, 'get%sDiShi'), 'xun': each(c, 'get%sXun'), 'void': each(c, 'get%sXunKong'), 'di': (call(c.getDayGanIndex), call(c.getDayZhiIndex)),
              'palaces': tuple(call(getattr(c, 'get' + x)) for x in pal), 'palacenayin': tuple(call(getattr(c, 'get%sNaYin' % x)) for x in pal),
              'text': call(c.toString) if call(str, c) == call(c.toString) else 'str differs'})


def lchart_res(l):
    if isinstance(l, str):
        return R({'raised': l})
    return R({'pillars': tup(call(l.getBaZi)), 'wuxing': tup(call(l.getBaZiWuXing)), 'nayin': tup(call(l.getBaZiNaYin)), 'gods': tup(call(l.getBaZiShiShenGan)),
              'first': tup(call(l.getBaZiShiShenZhi)), 'zhigods': tuple(tup(call(getattr(l, 'getBaZiShiShen%sZhi' % p))) for p in P)})


def month_job(job):
    """charts of a month: some days, all hours; without a month, of the kindred moments of a year"""
    y, m, days, hours, seed = job
    a = api()
    rng = random.Random(seed * 97 + y * 13 + m)
    bad, n, keep = [], 0, []
    kin = [] if m else dateobs.crowd(y, seed, 1)
    for i in range(days if m else len(kin)):
        d = kin[i][0] if kin else min(a.DN(y, m, rng.randint(1, 28)) if (y, m) != (1582, 10) else a.DN(y, m, 4), co.LAST)
        for _ in range(hours if m else 1):
            s = kin[i][1] if kin else rng.choice((rng.randrange(86400), rng.randrange(82800, 86400), rng.randrange(24) * 3600))
            if not to.clear(d, s):
                continue
            l = c09.lunar_at(d, s, rng.random() < 0.5)
            for sect in (1, 2):
                c = call(lambda: l.getEightChar())
                call(lambda: c.setSect(sect))
                for e, r in (({'op': 'chart', 'n': d, 's': s, 'sect': sect}, chart_res(c)), ({'op': 'lchart', 'n': d, 's': s, 'sect': sect}, lchart_res(l))):
                    n += 1
                    if judge(a.Facts, e, r, bad, 'chart') and rng.random() < 0.01:
                        keep.append(dict(e, res=r))
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def walk_job(job):
    seed, count, length = job
    a = api()
    n, bad, kept = 0, [], []
    for w in range(count):
        rng = random.Random(seed * 1000 + w)
        st, events = a.W0, []
        while len(events) < length:
            op = rng.choice(('sect', 'sect', 'own', 'own', 'other', 'lunar', 'fresh', 'reset')) if events else 'reset'
            e = {'op': op}
            if op == 'reset':
                e.update(n=co.rday(rng, co.FIRST, co.LAST), s=rng.choice((rng.randrange(82800, 86400), rng.randrange(86400))))
                if not to.clear(e['n'], e['s']):
                    continue
                lun = call(lambda: mk(e['n'], e['s']).getLunar())
                ch = {'own': call(lambda: lun.getEightChar()), 'other': call(lambda: EightChar.fromLunar(lun))}
                r = R({'ok': not isinstance(lun, str)})
            elif op == 'sect':
                e.update(which=rng.choice(('own', 'other')), v=rng.choice((1, 2)))
                call(lambda: ch[e['which']].setSect(e['v']))
                r = R({'ok': True})
            elif op == 'lunar':
                r = lchart_res(lun)
            elif op == 'fresh':
                r = chart_res(call(lambda: EightChar.fromLunar(lun)))
            else:
                r = chart_res(call(lambda: lun.getEightChar()) if op == 'own' and rng.random() < 0.5 else ch[op])
            n += 1
            if not judge(lambda x: a.WExpect(st, x), dict(e, at=dict(st)), r, bad, 'chart walk'):
                break
            st = a.WApply(st, e)
            events.append(dict(e, res=r))
        if w == 0 and len(events) == length:
            kept.append(events)
    return {'n': n, 'bad': bad[:5], 'keep': kept}


MODEL = '''CONSTANTS YearSet = {%s} DaySet = {%s}
SPECIFICATION Spec
INVARIANTS Valid TaiXiInverse Void InXun TenGodsDual SelfGod BirthStage PalacesMirror %s
CHECK_DEADLOCK FALSE
'''
BIND = ('W0', 'WExpect', 'WApply')


def nums(it):
    return ', '.join(map(str, it))


def run(ctx):
    a = api()
    to.api()
    c09.api()
    co.api()
    ctx.model('MC_Chart', MODEL % (nums([0]), nums([0]), 'Agrees StagesDiffer HiddenLead'), name='MC_Chart tables')
    ctx.model('MC_Chart', MODEL % (nums(range(60)), nums([ctx.rng.randrange(60)]), ''), name='MC_Chart all years', workers=8)
    ctx.model('MC_Chart', MODEL % (nums([ctx.rng.randrange(60)]), nums(range(60)), ''), name='MC_Chart all days', workers=8)
    if ctx.thorough:
        ctx.model('MC_Chart', MODEL % (nums(range(60)), nums(range(60)), ''), name='MC_Chart all', workers=8, timeout=3000, heap='6g')
    y0 = ctx.rng.randint(1900, 2040)
    jobs = [(y, m, 4, 4, ctx.seed) for y in range(y0, y0 + 60) for m in range(1, 13)] if not ctx.thorough else [(y, m, 28, 12, ctx.seed) for y in range(y0, y0 + 120) for m in range(1, 13)]
    jobs += [(y, ctx.rng.randint(1, 12), 2, 2, ctx.seed) for y in (ctx.rng.sample(range(2, 9999), 9000))]
    jobs += [(y, 0, 0, 0, ctx.seed) for y in (ctx.rng.sample(range(2, 9999), 1500) if not ctx.thorough else range(2, 9999))]
    k = ctx.sweep(month_job, jobs, 'charts', init=vlib.memo_years)
    w = ctx.sweep(walk_job, [(ctx.seed * 359 + i, 6 if not ctx.thorough else 60, 60) for i in range(64)], 'walk steps', init=vlib.memo_years)
    ctx.rng.shuffle(k)
    k = k[:600]
    w = [x for c in w[:30] for x in c]
    for e in k[:2] + w[:3]:
        ctx.sample(e)
    ctx.trace('Trace_Chart', k, bind='Facts', chunk=60)
    ctx.trace('Trace_ChartWalk', w, bind=BIND, chunk=60)
    vlib.self_test(ctx, 'Trace_Chart', k, 60, bind='Facts')
    vlib.self_test(ctx, 'Trace_ChartWalk', w, 60, bind=BIND)
    ctx.assumptions += ['conventions 1 and 2', 'moments within three seconds of a solar term are skipped']
