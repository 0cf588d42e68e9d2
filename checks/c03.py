"""C03: weekdays and calendar containers tile the timeline."""
import random

import civilobs as co
from civilobs import call, dt
from tla2py import R
from lunar_python import Solar, SolarWeek, SolarMonth, SolarSeason, SolarHalfYear, SolarYear
from lunar_python.util import SolarUtil
from vlib import judge


def dts(x):
    return tuple(dt(i) for i in x) if not isinstance(x, str) else x


def yms(x):
    return tuple((i.getYear(), i.getMonth()) for i in x) if not isinstance(x, str) else x


def week_res(n, st):
    a = co.api()
    w = co.box(SolarWeek, *a.DateOf(n), st)
    if isinstance(w, str):
        return R({'raised': w})
    return R({'own': tuple(call(getattr(w, x)) for x in ('getYear', 'getMonth', 'getDay', 'getStart')), 'index': call(w.getIndex), 'yindex': call(w.getIndexInYear), 'first': dt(call(w.getFirstDay)), 'days': dts(call(w.getDays)),
              'inmonth': dts(call(w.getDaysInMonth)), 'firstin': dt(call(w.getFirstDayInMonth))})


def month_res(y, m, st, o=None):
    ws = call(lambda: (o or co.box(SolarMonth, y, m)).getWeeks(st))
    return R({'weeks': call(SolarUtil.getWeeksOfMonth, y, m, st), 'firsts': tuple(dt(call(w.getFirstDay)) for w in ws) if not isinstance(ws, str) else ws})


def mdays_res(y, m):
    return R({'days': dts(call(lambda: co.box(SolarMonth, y, m).getDays()))})


def cont_res(y, m):
    s, h = co.box(SolarSeason, y, m), co.box(SolarHalfYear, y, m)
    if isinstance(s, str) or isinstance(h, str):
        return R({'raised': (s, h) if isinstance(s, str) and isinstance(h, str) else s if isinstance(s, str) else h})
    return R({'season': call(s.getIndex), 'half': call(h.getIndex), 'smonths': yms(call(s.getMonths)), 'hmonths': yms(call(h.getMonths))})


def week_job(job):
    lo, hi, step = job
    a = co.api()
    rng = random.Random(lo)
    bad, n, keep = [], 0, []
    for d in range(max(lo, co.FIRST + 400), min(hi, co.LAST - 40), step):
        for st in range(7):
            r = week_res(d, st)
            judge(lambda e: a.WeekFacts(e['n'], e['st']), {'op': 'week', 'n': d, 'st': st, 'date': a.DateOf(d)}, r, bad, 'week of a day')
            n += 1
            if rng.random() < 0.003:
                keep.append({'op': 'week', 'n': d, 'st': st, 'res': r})
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def year_job(ys):
    a = co.api()
    rng = random.Random(ys[0])
    bad, n, keep = [], 0, []
    for y in ys:
        for m in range(1, 13):
            ev = [({'op': 'mdays', 'y': y, 'm': m}, mdays_res(y, m), lambda e: a.MonthDaysFacts(e['y'], e['m'])),
                  ({'op': 'cont', 'y': y, 'm': m}, cont_res(y, m), lambda e: a.ContainerFacts(e['y'], e['m']))]
            same = SolarMonth.fromYm(y, m) if m % 2 else None
            if (y, m) not in ((1, 1), (9999, 12)):
                ev += [({'op': 'month', 'y': y, 'm': m, 'st': st}, month_res(y, m, st, same), lambda e: a.MonthFacts(e['y'], e['m'], e['st'])) for st in rng.sample(range(7), 7)]
            for e, r, f in ev:
                judge(f, e, r, bad, 'month')
                n += 1
                if rng.random() < 0.01:
                    keep.append(dict(e, res=r))
        sy = co.box(SolarYear, y)
        judge(lambda e: a.YearFacts(e['y']), {'op': 'yearfacts', 'y': y}, R({
            'leap': call(SolarUtil.isLeapYear, y), 'days': call(SolarUtil.getDaysOfYear, y), 'months': tuple(call(SolarUtil.getDaysOfMonth, y, m) for m in range(1, 13)),
            'first': a.DN(*dt(Solar.fromYmd(y, 1, 1))), 'list': yms(call(lambda: sy.getMonths()))}), bad, 'year')
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def weekday_job(job):
    lo, hi = job
    a = co.api()
    bad, n = [], 0
    rng = random.Random(lo)
    for d in range(lo, hi):
        x = co.mk(d, 0 if d % 3 else rng.randrange(86400))
        w = call(x.getWeek)
        wc = call(x.getWeekInChinese)
        n += 1
        if d % 41 == lo % 41:            # the lunar date of the day reports the same weekday
            l = call(x.getLunar)
            w2, wc2 = call(lambda: l.getWeek()), call(lambda: l.getWeekInChinese())
            if (w2, wc2) != (w, wc):
                w, wc = (w, w2), (wc, wc2)
        if w != a.Weekday(d) or wc != '日一二三四五六'[a.Weekday(d)]:
            bad.append(('weekday', {'op': 'weekday', 'n': d, 'date': a.DateOf(d), 'res': {'week': w, 'name': wc}}, ['week']))
            if len(bad) > 5:
                break
    return {'n': n, 'bad': bad[:5]}


def run(ctx):
    co.api()
    co.models(ctx)
    ctx.sweep(weekday_job, [(d, min(d + 20000, co.LAST + 1)) for d in range(co.FIRST, co.LAST + 1, 20000)], 'weekdays')
    sp = sorted(set(x + o for x in co.specials() for o in (-7, -1, 0, 1, 7)))
    jobs = [(d, d + 1, 1) for d in sp]
    jobs += [(co.api().DN(1582, 9, 1), co.api().DN(1583, 1, 1), 1)]
    step = 13 if not ctx.thorough else 3
    jobs += [(d + ctx.rng.randrange(step), d + 20000, step) for d in range(co.FIRST, co.LAST + 1, 20000)]
    k = ctx.sweep(week_job, jobs, 'weeks of days')
    ys = list(range(1, 10000))
    k2 = ctx.sweep(year_job, [ys[i:i + 40] for i in range(0, len(ys), 40)], 'months and containers')
    ctx.rng.shuffle(k)
    ctx.rng.shuffle(k2)
    k = k[:2000] + k2[:2000]
    for e in k[:3] + k[-2:]:
        ctx.sample(e)
    ctx.trace('Trace_CivilFacts', k, chunk=200)
    co.self_test(ctx, 'Trace_CivilFacts', k, 200)
    ctx.assumptions += ['dates in years 1..9999; weeks that reach outside that range are not judged']
