"""Recording the lunar calendar."""
import random

import civilobs as co
import tla2py
import vlib
from civilobs import full, mk
from tla2py import R
from vlib import call

from lunar_python import Lunar, LunarMonth, LunarYear, Solar

API = {}
MEMO = ('SuiFirst', 'SuiLeap', 'Label', 'FirstMoon', 'RuleLabel', 'MoonAt', 'DateOf')


def api(name='LunarApi'):
    if name not in API:
        API[name] = tla2py.load(name, memo=MEMO)
    return API[name]


def lfull(x):
    return (x.getYear(), x.getMonth(), x.getDay(), x.getHour(), x.getMinute(), x.getSecond()) if not isinstance(x, str) else x


def sol_res(n, s):
    x = mk(n, s)
    way = (n + s) % 4
    t = co.date_of(n, s) if way == 1 else None
    l = call(Lunar.fromDate, t) if t is not None else call(Lunar.fromSolar, x) if way == 2 else call(x.getLunar)
    return R({'lunar': lfull(l), 'back': full(call(l.getSolar)) if not isinstance(l, str) else l})


def hms(s):
    return s // 3600, s // 60 % 60, s % 60


def lun_res(y, m, d, s):
    l = call(Lunar.fromYmdHms, y, m, d, *hms(s))
    if isinstance(l, str):
        return R({'refused': True}) if l == 'raise:Exception' else R({'raised': l})
    return R({'lunar': lfull(l), 'solar': full(call(l.getSolar))})


def mrec(m):
    j = m.getFirstJulianDay()
    return R({'label': (m.getYear(), m.getMonth()), 'first': int(j) if j == int(j) else j, 'days': m.getDayCount()})


def num(x):
    return int(x) if isinstance(x, float) and x == int(x) else x


def lyear_res(y):
    ly = call(LunarYear.fromYear, y)
    if isinstance(ly, str):
        return R({'raised': ly})

    def get():
        return tuple(num(m.getFirstJulianDay()) if m is not None else 0 for m in (ly.getMonth(j) for j in range(-12, 13)))
    own = call(ly.getMonthsInYear)
    tab = call(ly.getMonths)
    return R({'own': tuple((m.getYear(), m.getMonth(), num(m.getFirstJulianDay()), m.getDayCount(), m.getIndex()) for m in own) if not isinstance(own, str) else own,
              'table': tuple(mrec(m) for m in tab) if not isinstance(tab, str) else tab,
              'days': call(ly.getDayCount), 'leap': call(ly.getLeapMonth), 'get': call(get),
              'leapof': tuple(m.isLeap() for m in own) if not isinstance(own, str) else own})


def lmonth_res(m):
    if isinstance(m, str) or m is None:
        return R({'raised': m or 'None'})
    return R({'label': (m.getYear(), m.getMonth()), 'first': num(m.getFirstJulianDay()), 'days': m.getDayCount(), 'index': m.getIndex(), 'leap': m.isLeap()})


REFORM = [8, 9, 10, 18, 19, 23, 24, 236, 237, 238, 239, 240]


def ryear(rng, lo=1, hi=9999):
    r = rng.random()
    if r < 0.12:
        y = rng.choice(REFORM)
    elif r < 0.5:
        y = rng.randint(1600, 2200)
    else:
        y = rng.randint(lo, hi)
    return min(max(y, lo), hi)


def rday(rng, a, lo=co.FIRST, hi=co.LAST):
    """a day, often at a month or year border of the lunar calendar"""
    r = rng.random()
    if r < 0.4:
        y = ryear(rng, 1, 9998)
        f = a.FirstMoon(y)
        i = rng.randrange(f, a.FirstMoon(y + 1) + 1)
        n = a.Moons[i - 1] + rng.choice((-1, 0, 0, 1, 28, 29))
    else:
        n = co.rday(rng, lo, hi)
    return min(max(n, lo), hi)
