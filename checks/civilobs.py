"""Recording the civil calendar: drives the library and projects what it returns."""
import datetime
import random

import tla2py
import vlib
from tla2py import R
from vlib import call, tup

from lunar_python import Solar, SolarWeek, SolarMonth, SolarSeason, SolarHalfYear, SolarYear
from lunar_python.util import SolarUtil

API = None


def api():
    global API
    if API is None:
        API = tla2py.load('CivilApi')
    return API


FIRST, LAST, DAY = 1721424, 5373484, 86400
SPECIAL = []


def specials():
    """days at which something about the calendar changes"""
    if not SPECIAL:
        a = api()
        ys = [1, 4, 5, 99, 100, 101, 400, 999, 1000, 1500, 1581, 1582, 1583, 1584, 1599, 1600, 1601, 1699, 1700, 1701, 1800, 1899, 1900, 1901,
              1904, 1970, 1999, 2000, 2001, 2004, 2020, 2023, 2024, 2099, 2100, 2101, 2400, 3000, 4000, 8000, 9000, 9996, 9999]
        for y in ys:
            for m, d in ((1, 1), (1, 31), (2, 1), (2, 28), (3, 1), (4, 30), (5, 31), (12, 1), (12, 31)):
                SPECIAL.append(a.DN(y, m, d))
            if a.Leap(y):
                SPECIAL.append(a.DN(y, 2, 29))
        for d in range(1, 32):
            if not 4 < d < 15:
                SPECIAL.append(a.DN(1582, 10, d))
        SPECIAL.append(a.DN(1582, 9, 30))
        SPECIAL.append(a.DN(1582, 11, 1))
    return SPECIAL


def mk(n, s=0):
    a = api()
    y, m, d = a.DateOf(n)
    return Solar.fromYmdHms(y, m, d, s // 3600, s // 60 % 60, s % 60)


def date_of(n, s):
    """the moment as a datetime, where the datetime module knows the day"""
    y, m, d = api().DateOf(n)
    try:
        return datetime.datetime(y, m, d, s // 3600, s // 60 % 60, s % 60)
    except ValueError:
        return None


def given(n, s):
    """the date object of a moment given as a datetime"""
    x = date_of(n, s)
    return call(Solar.fromDate, x) if x is not None else mk(n, s)


TURN = [0]


def box(cls, y, m=1, d=None, st=None):
    """a container of days, made from its fields or from a date (given as a datetime, where there is one), turn about"""
    TURN[0] += 1
    if TURN[0] % 3 == 0:
        try:
            x = datetime.datetime(y, m, d or TURN[0] % 28 + 1, TURN[0] % 24)
        except ValueError:
            x = None
        if x is not None:
            return call(cls.fromDate, x, st) if st is not None else call(cls.fromDate, x)
    return call(cls.fromYear, y) if cls is SolarYear else call(cls.fromYm, y, m) if st is None else call(cls.fromYmd, y, m, d, st)


def dt(x):
    return (x.getYear(), x.getMonth(), x.getDay()) if not isinstance(x, str) else x


def full(x):
    return (x.getYear(), x.getMonth(), x.getDay(), x.getHour(), x.getMinute(), x.getSecond()) if not isinstance(x, str) else x


def obs(x):
    if isinstance(x, str):
        return R({'raised': x})
    return R({'full': full(x), 'ymd': call(x.toYmd), 'hms': call(x.toYmdHms)})


def mins(v):
    return divmod(v, 1440) if isinstance(v, int) else v


def compare(cur, mark):
    return R({'sub': call(cur.subtract, mark), 'bus': call(mark.subtract, cur),
              'subm': mins(call(cur.subtractMinute, mark)), 'busm': mins(call(mark.subtractMinute, cur)),
              'after': call(cur.isAfter, mark), 'before': call(cur.isBefore, mark),
              'mafter': call(mark.isAfter, cur), 'mbefore': call(mark.isBefore, cur),
              'between': call(SolarUtil.getDaysBetween, mark.getYear(), mark.getMonth(), mark.getDay(), cur.getYear(), cur.getMonth(), cur.getDay())})


SECS = (0, 1, 59, 60, 3599, 3600, 43199, 43200, 43201, 82799, 82800, 82801, 86398, 86399)


def rsec(rng):
    return rng.choice(SECS) if rng.random() < 0.3 else rng.randrange(DAY)


def rday(rng, lo=FIRST, hi=LAST):
    r = rng.random()
    if r < 0.3:
        n = rng.choice(specials()) + rng.choice((-1, 0, 0, 0, 1))
    elif r < 0.55:
        n = rng.randrange(2378497, 2524594)      # 1800..2199
    else:
        n = rng.randrange(FIRST, LAST + 1)
    return min(max(n, lo), hi)


def walk(seed, length, ops):
    """One recorded walk over the real code; returns (events, mismatches)."""
    a = api()
    rng = random.Random(seed)
    st = a.St0
    events, bad = [], []

    def do(ev, res):
        nonlocal st
        ev['res'] = res
        exp = a.Expect(st, ev)
        if exp != res:
            diff = sorted(k for k in set(exp) | set(res) if exp.get(k, '<none>') != res.get(k, '<none>'))
            bad.append(('walk: ' + ', '.join(diff), dict(ev, at=dict(st), expected=exp, seed=seed), diff))
            return False
        st = a.Apply(st, ev)
        events.append(ev)
        return True

    n, s = rday(rng), rsec(rng)
    cur = call(mk, n, s)
    if not do({'op': 'reset', 'n': n, 's': s}, obs(cur)):
        return events, bad
    mark = mk(FIRST, 0)
    for _ in range(length):
        op = rng.choice(ops)
        if op == 'reset':
            n, s = rday(rng), rsec(rng)
            if rng.random() < 0.4:       # close to the mark, so that fields coincide
                n = min(max(st['mn'] + rng.choice((0, 0, 0, 1, -1, 365, -365, 30, -31)), FIRST), LAST)
                s = rng.choice((st['ms'], (st['ms'] + rng.choice((1, -1, 60, -60, 3600, -3600))) % DAY, s))
            cur = call(mk, n, s)
            if not do({'op': 'reset', 'n': n, 's': s}, obs(cur)):
                break
        elif op == 'mark':
            mark = cur
            do({'op': 'mark'}, R({'ok': True}))
        elif op == 'compare':
            if not do({'op': 'compare'}, compare(cur, mark)):
                break
        else:
            lim = {'day': (1, 3, 40, 400, 4000, 30000, 900000), 'hour': (1, 3, 23, 24, 25, 100, 5000), 'month': (1, 2, 11, 12, 13, 30, 700), 'year': (1, 2, 4, 100, 400, 3000)}[op]
            w = {'day': (6, 6, 8, 4, 2, 0.6, 0.1)}.get(op, (4,) * len(lim))
            k = rng.randint(0, rng.choices(lim, w[:len(lim)])[0]) * rng.choice((1, -1))
            if op == 'day' and rng.random() < 0.15:
                t = rng.choice(specials())
                if abs(t - st['n']) < 60000:
                    k = t - st['n']
            if op == 'year' and rng.random() < 0.1:
                k = 1582 - a.DateOf(st['n'])[0]
            if op == 'month' and rng.random() < 0.1:
                d = a.DateOf(st['n'])
                k = (1582 - d[0]) * 12 + 10 - d[1]
                if abs(k) > 3000:
                    k = 1
            t = a.Target(st, {'op': op, 'k': k})
            if not (FIRST <= t[0] <= LAST):
                k = -k
                t = a.Target(st, {'op': op, 'k': k})
                if not (FIRST <= t[0] <= LAST):
                    continue
            old = cur
            if rng.random() < 0.15:           # another step of the same object, not taken
                call(getattr(old, {'day': 'next', 'hour': 'nextHour', 'month': 'nextMonth', 'year': 'nextYear'}[op]), rng.choice((k + 1, 1, -1, 2)))
            if op == 'day':
                cur = call(old.next, k)
            elif op == 'hour':
                cur = call(old.nextHour, k)
            elif op == 'month':
                cur = call(old.nextMonth, k)
            else:
                cur = call(old.nextYear, k)
            if not do({'op': op, 'k': k}, obs(cur)):
                break
    return events, bad


def walks(job):
    seed, count, length, ops, keep = job
    n, bad, kept = 0, [], []
    for i in range(count):
        ev, b = walk(seed * 1000 + i, length, ops)
        n += len(ev)
        bad += b
        if keep and i == 0:
            kept.append(ev)
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': kept}


def flat(walk_list, length):
    """pad walks to a common chunk length so that every chunk starts with a reset"""
    out = []
    for w in walk_list:
        w = w[:length]
        while len(w) < length:
            w = w + [w[0]]
        out += w
    return out


MODEL_CFG = '''CONSTANTS YearLo = %d YearHi = %d
SPECIFICATION Spec
INVARIANTS Exists ClosedForm BackForth WeekdayOk YearLength MonthLength MonthShiftInverse ClampExists WeekOk
PROPERTY CellStep
CHECK_DEADLOCK FALSE
'''


def models(ctx):
    for lo, hi in ([(1570, 1600), (1995, 2005)] if not ctx.thorough else [(1, 60), (1490, 1720), (1890, 2110), (9940, 9999)]):
        ctx.model('MC_Civil', MODEL_CFG % (lo, hi), name='MC_Civil %d-%d' % (lo, hi), workers=8)


self_test = vlib.self_test
