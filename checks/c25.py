"""C25: attributes of lunar year and lunar month objects."""
import random

import civilobs as co
import dateobs as do
import lunarobs as lo
import termobs as to
from c16 import pair
from c18 import ix
from civilobs import mk
from lunar_python import LunarMonth, LunarYear
from tla2py import R
from vlib import call, judge

OMENS = ('TouLiang', 'CaoZi', 'GengTian', 'HuaShou', 'ZhiShui', 'TuoGu', 'QiangMi', 'KanCan', 'GongZhu', 'JiaTian', 'FenBing', 'DeJin', 'RenBing', 'RenChu')


def dirs(o):
    f = 'getPositionFu'
    return (pair(o, 'getPositionXi'), pair(o, 'getPositionYangGui'), pair(o, 'getPositionYinGui'), pair(o, f), pair(o, f, 1), pair(o, f, 2), pair(o, 'getPositionCai'))


def base(o):
    return {'pillar': call(o.getGanZhi), 'gan': call(o.getGan), 'zhi': call(o.getZhi), 'gi': call(o.getGanIndex), 'zi': call(o.getZhiIndex), 'dirs': dirs(o),
            'duke': pair(o, 'getPositionTaiSui'), 'star': ix(o.getNineStar), 'text': call(o.toString) if call(str, o) == call(o.toString) else 'str differs'}


def year_res(o):
    if isinstance(o, str):
        return R({'raised': o})
    r = base(o)
    r.update(year=call(o.getYear), age=call(o.getYuan), period=call(o.getYun), omens=tuple(call(getattr(o, 'get' + x)) for x in OMENS), full=call(o.toFullString))
    return R(r)


def month_res(o):
    if isinstance(o, str) or o is None:
        return R({'raised': o or 'None'})
    r = base(o)
    r['label'] = (call(o.getYear), call(o.getMonth))
    return R(r)


def get_month(y, m, how):
    if how == 0:
        return call(LunarMonth.fromYm, y, m)
    if how == 1:
        return call(lambda: LunarYear.fromYear(y).getMonth(m))
    return call(lambda: [x for x in LunarYear.fromYear(y).getMonthsInYear() if x.getMonth() == m][0])


def year_job(job):
    ys, seed = job
    a = lo.api('YearObjApi')
    bad, n, keep = [], 0, []
    rng = random.Random(seed + ys[0])
    for y in ys:
        e = {'op': 'lyear', 'y': y}
        n += 1
        r = year_res(call(LunarYear.fromYear, y))
        if judge(a.Facts, e, r, bad, 'lunar year') and rng.random() < 0.03:
            keep.append(dict(e, res=r))
        for i in a.MonthsOf(y):
            if not to.clearday(a.Moons[i - 1]):
                continue
            m = a.Label(i)[1]
            e = {'op': 'lmonth', 'y': y, 'm': m}
            n += 1
            r = month_res(get_month(y, m, rng.randrange(3)))
            if judge(a.Facts, e, r, bad, 'lunar month') and rng.random() < 0.006:
                keep.append(dict(e, res=r))
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def walk_job(job):
    seed, count, length = job
    a = lo.api('YearObjApi')
    n, bad, kept = 0, [], []
    lo_i, hi_i = a.FirstMoon(2), a.FirstMoon(9999)
    for w in range(count):
        rng = random.Random(seed * 1000 + w)
        st, events, yo, mo = a.W0, [], None, None
        while len(events) < length:
            op = rng.choice(('year', 'nextyear', 'nextyear', 'askyear', 'month', 'nextmonth', 'nextmonth', 'nextmonth', 'askmonth', 'touch')) if len(events) > 1 else ('year', 'month')[len(events)]
            e = {'op': op}
            if op in ('year', 'month'):
                e['y'] = lo.ryear(rng, 2, 9998)
            if op == 'month':
                e['m'] = a.Label(rng.choice(list(a.MonthsOf(e['y']))))[1]
            if op == 'nextyear':
                e['k'] = rng.choice((0, 1, -1, 1, 12, -60, rng.randint(-100, 100)))
            if op == 'nextmonth':
                e['k'] = rng.choice((0, 1, 1, 1, -1, -1, 12, 13, -13, rng.randint(-40, 40)))
            t = a.WApply(st, e)
            if op == 'nextyear' and not 2 <= t['y'] <= 9998 or op == 'nextmonth' and not lo_i <= t['i'] < hi_i:
                continue
            if 'month' in op and not to.clearday(a.Moons[t['i'] - 1]):
                continue
            if op == 'year':
                yo = call(LunarYear.fromYear, e['y'])
            elif op == 'nextyear':
                yo = call(lambda: yo.next(e['k']))
            elif op == 'month':
                mo = get_month(e['y'], e['m'], rng.randrange(3))
            elif op == 'nextmonth':
                mo = call(lambda: mo.next(e['k']))
            elif op == 'touch':
                call(lambda: mk(co.rday(rng, co.FIRST, co.LAST), 0).getLunar().toFullString())
            r = R({'ok': True}) if op == 'touch' else year_res(yo) if 'year' in op else month_res(mo)
            n += 1
            if not judge(lambda x: a.WExpect(st, x), dict(e, at=dict(st)), r, bad, 'year and month objects'):
                break
            st = t
            events.append(dict(e, res=r))
        if w == 0 and len(events) == length:
            kept.append(events)
    return {'n': n, 'bad': bad[:5], 'keep': kept}


MODEL = '''CONSTANTS Years = {%s}
SPECIFICATION Spec
INVARIANTS Valid OmenDay OmenStem Ages JiaziStar
PROPERTIES Steps Joins
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    lo.api('YearObjApi')
    co.api()
    to.api()
    ys = ctx.rng.sample(range(2, 9990), 60) + [7, 22, 236, 238, 1984, 1864] if not ctx.thorough else list(range(2, 9990, 3))
    ctx.model('MC_YearObj', MODEL % ', '.join(map(str, ys)), workers=8, timeout=2500)
    years = do.years(ctx)
    k = ctx.sweep(year_job, [(tuple(years[i:i + 20]), ctx.seed) for i in range(0, len(years), 20)], 'year and month objects')
    w = ctx.sweep(walk_job, [(ctx.seed * 83 + i, 2 if not ctx.thorough else 30, 60) for i in range(64)], 'walk steps')
    ctx.rng.shuffle(k)
    k = k[:500]
    w = [x for c in w[:16] for x in c]
    for e in k[:3] + w[:3]:
        ctx.sample(e)
    ctx.trace('Trace_YearObj', k, bind='Facts', chunk=50)
    ctx.trace('Trace_YearObjWalk', w, bind=do.BIND, chunk=60)
    from vlib import self_test
    self_test(ctx, 'Trace_YearObj', k, 50, bind='Facts')
    self_test(ctx, 'Trace_YearObjWalk', w, 60, bind=do.BIND)
    ctx.assumptions += ['months whose first day has a term within three seconds of midnight are skipped']
