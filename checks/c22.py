"""C22: two-hour periods."""
import random

import c09
import c16
import civilobs as co
import dateobs as do
import lunarobs as lo
import termobs as to
import vlib
from c18 import ix
from civilobs import mk
from lunar_python import LunarTime
from lunar_python.util import LunarUtil
from tla2py import R
from vlib import call, judge


def period(t):
    if isinstance(t, str):
        return R({'raised': t})
    q = c16.q
    return R({'attr': c16.attr(t, ''), 'pillar': call(t.getGanZhi), 'gan': call(t.getGan), 'zhi': call(t.getZhi), 'gi': call(t.getGanIndex), 'zi': call(t.getZhiIndex),
              'animal': call(t.getShengXiao), 'spirit': q(t, 'getTianShen', 'getTianShenType', 'getTianShenLuck'), 'xun': call(t.getXun), 'void': call(t.getXunKong),
              'star': ix(t.getNineStar), 'bounds': q(t, 'getMinHm', 'getMaxHm'), 'text': call(t.toString) if call(t.toString) == call(str, t) else 'str differs'})


def date_hour(l):
    q = c16.q
    return R({'attr': c16.attr(l, 'Time'), 'pillar': call(l.getTimeInGanZhi), 'gan': call(l.getTimeGan), 'zhi': call(l.getTimeZhi), 'gi': call(l.getTimeGanIndex),
              'zi': call(l.getTimeZhiIndex), 'animal': call(l.getTimeShengXiao), 'spirit': q(l, 'getTimeTianShen', 'getTimeTianShenType', 'getTimeTianShenLuck'),
              'xun': call(l.getTimeXun), 'void': call(l.getTimeXunKong), 'star': ix(l.getTimeNineStar)})


def observe(l):
    t = call(LunarTime.fromYmdHms, l.getYear(), l.getMonth(), l.getDay(), l.getHour(), l.getMinute(), l.getSecond())
    return R({'period': period(t), 'own': period(call(l.getTime)), 'date': date_hour(l)})


def list_res(ts):
    if isinstance(ts, str):
        return R({'raised': ts})
    return R({'count': len(ts), 'bounds': tuple(c16.q(t, 'getMinHm', 'getMaxHm') for t in ts), 'pillars': tuple(call(t.getGanZhi) for t in ts)})


def list_job(job):
    y, seed, few = job
    a = lo.api('HourApi')
    rng = random.Random(seed * 17 + y)
    bad, n, keep = [], 0, []

    def do_(e, r):
        nonlocal n
        n += 1
        if judge(a.Facts, e, r, bad, 'periods of a day') and rng.random() < 0.01:
            keep.append(dict(e, res=r))
    for d in do.days_of_year(a, y, rng, few):
        if not to.clearday(d):
            continue
        ts = call(lambda: c09.lunar_at(d, c09.rs(rng), rng.random() < 0.5).getTimes())
        do_({'op': 'list', 'n': d}, list_res(ts))
        if not isinstance(ts, str) and len(ts) == 13:
            i = rng.randrange(13)
            do_({'op': 'item', 'n': d, 'i': i}, period(ts[i]))
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def clock_job(job):
    a = lo.api('HourApi')
    bad, keep = [], []
    for t in job:
        hm = '%02d:%02d' % (t // 60, t % 60)
        e = {'op': 'clock', 't': t}
        r = R({'index': call(LunarUtil.getTimeZhiIndex, hm), 'zhi': call(LunarUtil.convertTime, hm)})
        if judge(a.Facts, e, r, bad, 'branch of a clock time') and t % 60 in (0, 59):
            keep.append(dict(e, res=r))
        r = R({'index': call(LunarUtil.getTimeZhiIndex, hm + ':59'), 'zhi': call(LunarUtil.convertTime, hm + ':00')})
        judge(a.Facts, e, r, bad, 'branch of a clock time')
    return {'n': 2 * len(job), 'bad': bad[:5], 'keep': keep}


MODEL = '''CONSTANTS Start = %d Days = %d
SPECIFICATION Spec
INVARIANTS InOne SameBranch
PROPERTIES Steps PillarRuns
CHECK_DEADLOCK FALSE
'''
job = do.Job('HourApi', 'hour', observe, 'two-hour periods', times=2)
walk = do.Walk('HourApi', observe, 'two-hour periods', hourp=0.8)


def run(ctx):
    lo.api('HourApi')
    c09.api()
    co.api()
    to.api()
    ctx.model('MC_Hours', MODEL % (ctx.rng.randrange(1000000), 6 if not ctx.thorough else 61), workers=4)
    k = ctx.sweep(clock_job, [tuple(range(h * 60, h * 60 + 60)) for h in range(24)], 'clock times')
    k += ctx.sweep(job, [(y, ctx.seed, 2 if not ctx.thorough else -1) for y in do.years(ctx)], 'moments', init=vlib.memo_years)
    k += ctx.sweep(list_job, [(y, ctx.seed, 2 if not ctx.thorough else 40) for y in do.years(ctx, 4, 100)], 'days', init=vlib.memo_years)
    w = ctx.sweep(walk, [(ctx.seed * 619 + i, 3 if not ctx.thorough else 40, 60) for i in range(64)], 'walk steps', init=vlib.memo_years)
    ctx.rng.shuffle(k)
    k = k[:500]
    w = [x for c in w[:16] for x in c]
    for e in k[:2] + w[:2]:
        ctx.sample(e)
    ctx.trace('Trace_Hour', k, bind='Facts', chunk=50)
    ctx.trace('Trace_HourWalk', w, bind=do.BIND, chunk=60)
    vlib.self_test(ctx, 'Trace_Hour', k, 50, bind='Facts')
    vlib.self_test(ctx, 'Trace_HourWalk', w, 60, bind=do.BIND)
    ctx.assumptions += ['days within three seconds of a term at midnight are skipped (the hour star and the date\'s pillars follow terms)']
