"""C24: printing."""
import random

import c09
import civilobs as co
import dateobs as do
import lunarobs as lo
import termobs as to
import vlib
from c16 import q
from lunar_python import LunarMonth, LunarYear, SolarHalfYear, SolarMonth, SolarSeason, SolarWeek, SolarYear
from tla2py import R
from vlib import call, judge, tup


def text(o):
    t = call(o.toString)
    return t if t == call(str, o) else 'str differs'


def parts(l):
    """the fields of a date, its solar, Buddhist and Taoist views, and the answers their full strings are made of"""
    s, f, t = call(l.getSolar), call(l.getFoto), call(l.getTao)
    c = [tup(call(getattr(l, x))) for x in ('getFestivals', 'getOtherFestivals')]
    p = R({
        'solar': R({'f': q(s, 'getYear', 'getMonth', 'getDay', 'getHour', 'getMinute', 'getSecond'), 'ymdhms': call(s.toYmdHms), 'leap': call(s.isLeapYear),
                    'week': call(s.getWeekInChinese), 'festivals': tup(call(s.getFestivals)), 'other': tup(call(s.getOtherFestivals)), 'sign': call(s.getXingZuo)}),
        'lunar': R({'f': q(l, 'getYear', 'getMonth', 'getDay'), 'text': text(l), 'year': q(l, 'getYearInGanZhi', 'getYearShengXiao'), 'month': q(l, 'getMonthInGanZhi', 'getMonthShengXiao'),
                    'day': q(l, 'getDayInGanZhi', 'getDayShengXiao'), 'hour': q(l, 'getTimeZhi', 'getTimeShengXiao'), 'nayin': q(l, 'getYearNaYin', 'getMonthNaYin', 'getDayNaYin', 'getTimeNaYin'),
                    'week': call(l.getWeekInChinese), 'festivals': c[0], 'other': c[1], 'term': call(l.getJieQi), 'lodge': q(l, 'getGong', 'getShou', 'getXiu', 'getZheng', 'getAnimal', 'getXiuLuck'),
                    'pengzu': q(l, 'getPengZuGan', 'getPengZuZhi'), 'xi': q(l, 'getDayPositionXi', 'getDayPositionXiDesc'), 'yanggui': q(l, 'getDayPositionYangGui', 'getDayPositionYangGuiDesc'),
                    'yingui': q(l, 'getDayPositionYinGui', 'getDayPositionYinGuiDesc'), 'fu': q(l, 'getDayPositionFu', 'getDayPositionFuDesc'),
                    'cai': q(l, 'getDayPositionCai', 'getDayPositionCaiDesc'), 'clash': call(l.getChongDesc), 'sha': call(l.getSha)}),
        'foto': R({'f': q(f, 'getYear', 'getMonth', 'getDay'), 'text': text(f), 'festivals': tuple(call(lambda: [x.getName() for x in f.getFestivals()]))}),
        'tao': R({'f': q(t, 'getYear', 'getMonth', 'getDay'), 'year': call(t.getYearInChinese), 'pillars': q(l, 'getYearInGanZhi', 'getMonthInGanZhi', 'getDayInGanZhi'),
                  'month': call(t.getMonthInChinese), 'day': call(t.getDayInChinese), 'hour': call(l.getTimeZhi)})})
    return {'p': p}


def observe(l):
    s, f, t = call(l.getSolar), call(l.getFoto), call(l.getTao)
    names = ('getYearInChinese', 'getMonthInChinese', 'getDayInChinese')
    return R({'solar': R({'text': text(s), 'ymd': call(s.toYmd), 'clock': call(s.toYmdHms)}), 'lunar': R({'text': text(l), 'parts': q(l, *names)}),
              'foto': R({'text': text(f), 'parts': q(f, *names)}), 'tao': R({'text': text(t), 'parts': q(t, *names)}),
              'solarfull': call(s.toFullString), 'lunarfull': call(l.toFullString), 'fotofull': call(f.toFullString), 'taofull': call(t.toFullString)})


def job(job):
    y, seed, few = job
    a = lo.api('PrintApi')
    rng = random.Random(seed * 131 + y)
    bad, n, keep, seen = [], 0, [], {}
    days = range(max(co.FIRST, a.DN(y, 1, 1)), a.DN(y, 12, 31) + 1) if few < 0 else do.days_of_year(a, y, rng, few, special(a, y, rng))
    moments = [(d, c09.rs(rng)) for d in days]
    moments = [x for x in moments if do.ok_moment(*x)] + (do.crowd(y, seed) if few >= 0 else [])
    for i, (d, s) in enumerate(moments):
        l = c09.lunar_at(d, s, rng.random() < 0.5)
        e = {'op': 'print'}
        r = R({'raised': l}) if isinstance(l, str) else None
        if r is None:
            e.update(parts(l))
            r = observe(l)
        n += 1
        if judge(a.Facts, e, r, bad, 'printed forms') and rng.random() < 0.004:
            keep.append(dict(e, res=r))
        if seen.get(r.get('lunarfull'), d) != d:
            bad.append(('two days print alike', {'op': 'print', 'n': d, 'other': seen[r['lunarfull']]}, None))
        seen[r.get('lunarfull')] = d
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def special(a, y, rng):
    out = [a.TermN[a.TermIx(y, i) - 1] for i in rng.sample(range(1, 25), 4)]
    f, e = a.FirstMoon(y), a.FirstMoon(y + 1)
    for j in range(f, e):
        if a.Label(j)[1] < 0:
            out += [a.Moons[j - 1], a.Moons[j] - 1]
    return out + [a.Moons[f - 1] - 1, a.Moons[f - 1]]


def box_job(job):
    """years, months and the containers of a year"""
    y, seed, few = job
    a = lo.api('PrintApi')
    rng = random.Random(seed * 31 + y)
    bad, n, keep = [], 0, []

    def do_(e, r):
        nonlocal n
        n += 1
        if judge(a.Facts, e, R(r), bad, 'printed forms') and rng.random() < 0.005:
            keep.append(dict(e, res=R(r)))

    def both(o):
        return {'texts': (text(o), call(o.toFullString))}
    for o in (SolarYear.fromYear(y), call(LunarYear.fromYear, y)):
        do_({'op': 'year', 'f': (call(o.getYear),)}, both(o))
    for m in call(lambda: LunarYear.fromYear(y).getMonthsInYear()):
        for o in (m, call(LunarMonth.fromYm, y, m.getMonth())):
            do_({'op': 'lunarmonth', 'f': q(o, 'getYear', 'getMonth', 'getDayCount')}, {'text': text(o)})
    for m in range(1, 13):
        o = SolarMonth.fromYm(y, m)
        do_({'op': 'month', 'f': q(o, 'getYear', 'getMonth')}, both(o))
        o = SolarSeason.fromYm(y, m)
        do_({'op': 'season', 'f': q(o, 'getYear', 'getIndex')}, both(o))
        o = SolarHalfYear.fromYm(y, m)
        do_({'op': 'half', 'f': q(o, 'getYear', 'getIndex')}, both(o))
        for d in rng.sample(range(1, 29), 3):
            if (y, m) != (1582, 10):
                for st in rng.sample(range(7), 2):
                    o = SolarWeek.fromYmd(y, m, d, st)
                    do_({'op': 'week', 'f': q(o, 'getYear', 'getMonth', 'getIndex')}, both(o))
    return {'n': n, 'bad': bad[:5], 'keep': keep}


MODEL = '''CONSTANTS Starts = {%s} Length = %d
SPECIFICATION Spec
INVARIANTS SolarBack LunarBack EraBack
PROPERTIES Differ
CHECK_DEADLOCK FALSE
'''
walk = do.Walk('PrintApi', observe, 'printed forms', extra=parts)


def run(ctx):
    a = lo.api('PrintApi')
    c09.api()
    co.api()
    to.api()
    ys = [2, 9, 99, 455, 999, 7302, 9998] + ctx.rng.sample(range(3, 9990), 4 if not ctx.thorough else 100)
    ctx.model('MC_Print', MODEL % (', '.join(str(a.DN(y, 1, 1)) for y in ys), 800), workers=8, timeout=2500, heap='6g')
    k = ctx.sweep(job, [(y, ctx.seed, 2 if not ctx.thorough else 40 if y % 10 else -1) for y in do.years(ctx)], 'dates', init=vlib.memo_years)
    k2 = ctx.sweep(box_job, [(y, ctx.seed, 0) for y in do.years(ctx)], 'years, months and containers', init=vlib.memo_years)
    w = ctx.sweep(walk, [(ctx.seed * 619 + i, 3 if not ctx.thorough else 40, 60) for i in range(64)], 'walk steps', init=vlib.memo_years)
    ctx.rng.shuffle(k)
    ctx.rng.shuffle(k2)
    k = k[:200] + k2[:200]
    w = [x for c in w[:16] for x in c]
    for e in k[:2] + w[:2]:
        ctx.sample(e)
    ctx.trace('Trace_Print', k, bind='Facts', chunk=50)
    ctx.trace('Trace_PrintWalk', w, bind=do.BIND, chunk=60)
    vlib.self_test(ctx, 'Trace_Print', k, 50, bind='Facts')
    vlib.self_test(ctx, 'Trace_PrintWalk', w, 60, bind=do.BIND)
    ctx.assumptions += ['days within three seconds of a term at midnight are skipped']
