"""Recording histories of the holiday store.  A history must start with the store as imported: run each in a process of its own."""
import random

import civilobs as co
import lunarobs as lo
from civilobs import full, mk
from lunar_python import Holiday
from lunar_python.util import HolidayUtil
from tla2py import R
from vlib import call, judge


def api():
    return lo.api('HolidayApi')


def view(h):
    if isinstance(h, str):
        return h
    if h is None:
        return ()
    return (h.getDay(), h.getName(), h.isWork(), h.getTarget())


def views(x):
    return tuple(view(h) for h in x) if not isinstance(x, str) else x


def text(r):
    return '%08d%s%s%08d' % (r['day'], '~' if r['remove'] else chr(48 + r['idx']), '0' if r['work'] else '1', r['target'])


def ymd(c):
    return c // 10000, c // 100 % 100, c % 100


def straddles(st, rng, count):
    """texts of valid records that also occur across the border of two records of the store"""
    days = sorted(st['recs'])
    out = []
    for _ in range(200):
        i = rng.randrange(len(days) - 1) if len(days) > 1 else 0
        if len(days) < 2:
            break
        s = ''.join('%08d%s%s%08d' % (d, chr(48 + st['recs'][d][0]), '0' if st['recs'][d][1] else '1', st['recs'][d][2]) for d in days[i:i + 2])
        for o in range(1, 18):
            t = s[o:o + 18]
            if t[8:9].isdigit() and t[9] in '01' and t[:8].isdigit() and t[10:].isdigit() and okday(int(t[:8])) and okday(int(t[10:])):
                out.append({'day': int(t[:8]), 'idx': int(t[8]), 'work': t[9] == '0', 'target': int(t[10:]), 'remove': False})
        if len(out) >= count:
            break
    return out


def okday(c):
    a = co.api()
    y, m, d = ymd(c)
    return 1 <= y and a.DateExists(y, m, d)


def rcode(rng, st):
    """a day: of the store, next to one, or anywhere"""
    a = co.api()
    r = rng.random()
    days = st['days']
    if st.get('hot') and rng.random() < 0.8:
        return rng.choice(st['hot'])
    if r < 0.45 and days:
        c = rng.choice(days)
    elif r < 0.75:
        n = a.DN(*ymd(rng.choice(days))) + rng.choice((-1, 1, 2, -7, 7, 30)) if days else 2459000
        c = api().Code(a.DateOf(n))
    elif r < 0.92:
        c = api().Code(a.DateOf(rng.randrange(a.DN(1995, 1, 1), a.DN(2035, 1, 1))))
    else:
        c = api().Code(a.DateOf(rng.randrange(co.FIRST, co.LAST)))
    return c


def rrec(rng, st, nnames):
    d = rcode(rng, st)
    if rng.random() < 0.3:
        return {'day': d, 'idx': 0, 'work': rng.random() < 0.5, 'target': rng.choice((d, 20000101)), 'remove': True}
    t = d if rng.random() < 0.4 else rcode(rng, st)
    return {'day': d, 'idx': rng.randrange(nnames), 'work': rng.random() < 0.4, 'target': t, 'remove': False}


def fix_event(rng, st):
    a = api()
    used = max([r[0] for r in st['recs'].values()] + [8]) if st['recs'] else 8
    names = ()
    if rng.random() < 0.2:
        k = max(used + 1, rng.choice((9, 10, 12, 40)))
        names = tuple('节%d-%d' % (rng.randrange(100), i) for i in range(k))
    nn = len(names) or len(st['names'])
    batch = [rrec(rng, st, nn) for _ in range(rng.choice((0, 1, 1, 1, 2, 3, 5)))]
    if rng.random() < 0.25:
        batch += [dict(x, idx=min(x['idx'], nn - 1)) for x in straddles(st, rng, 1)[:2]]
    if len(batch) > 1 and rng.random() < 0.3:
        batch.append(dict(rng.choice(batch), remove=rng.random() < 0.5, work=rng.random() < 0.5))
    return {'op': 'fix', 'names': names, 'batch': tuple(R(b) for b in batch)}


def do_fix(rng, ev):
    s = ''.join(text(b) for b in ev['batch'])
    if rng.random() < 0.15:
        s += '20200101012020'[:rng.randrange(1, 14)]       # an unfinished record changes nothing
    data = s if s or rng.random() < 0.5 else None
    names = None if not ev['names'] else (list(ev['names']) if rng.random() < 0.5 else ev['names'])
    return R({'returns': str(call(HolidayUtil.fix, names, data))})


def query(rng, st, about=None):
    r, c = about or (rng.random(), rcode(rng, st))
    y, m, d = ymd(c)
    if r < 0.4:
        if rng.random() < 0.1:
            y = rng.randint(1, 999)
            c = y * 10000 + m * 100 + d
        f = rng.randrange(3)
        if f == 0:
            h = call(HolidayUtil.getHoliday, y, m, d)
        elif f == 1:
            h = call(HolidayUtil.getHoliday, '%04d-%02d-%02d' % (y, m, d))
        else:
            h = call(HolidayUtil.getHoliday, '%08d' % c)
        if not isinstance(h, str) and h is not None and rng.random() < 0.3:
            # what was handed out belongs to the caller
            first = view(h), h.toString()
            h.setName('改'), h.setWork(not h.isWork()), h.setDay('20300101'), h.setTarget('2030-01-01')
            return {'op': 'day', 'day': c}, R({'found': first[0], 'text': first[1]})
        return {'op': 'day', 'day': c}, R({'found': view(h), 'text': '' if h is None else h if isinstance(h, str) else h.toString() if rng.random() < 0.5 else str(h)})
    if r < 0.55:
        f = rng.randrange(3)
        x = call(HolidayUtil.getHolidays, y, m) if f == 0 else call(HolidayUtil.getHolidays, '%04d-%02d' % (y, m)) if f == 1 else call(HolidayUtil.getHolidays, '%04d%02d' % (y, m))
        return {'op': 'month', 'y': y, 'm': m}, R({'found': views(x)})
    if r < 0.7:
        if rng.random() < 0.2:
            y = rng.randint(1, 9999)
        x = call(HolidayUtil.getHolidays, y) if rng.random() < 0.6 else call(HolidayUtil.getHolidays, '%04d' % y)
        return {'op': 'year', 'y': y}, R({'found': views(x)})
    if r < 0.75:
        return {'op': 'first', 'y': y}, R({'found': view(call(HolidayUtil.getHoliday, y))})
    if r < 0.95:
        t = st['recs'][c][2] if c in st['recs'] and rng.random() < 0.7 else c
        y, m, d = ymd(t)
        f = rng.randrange(3)
        x = call(HolidayUtil.getHolidaysByTarget, y, m, d) if f == 0 else call(HolidayUtil.getHolidaysByTarget, '%04d-%02d-%02d' % (y, m, d)) if f == 1 else call(HolidayUtil.getHolidaysByTarget, '%08d' % t)
        return {'op': 'target', 't': t}, R({'found': views(x)})
    w, t = rng.random() < 0.5, rcode(rng, st)
    a = call(lambda: Holiday('%08d' % c if rng.random() < 0.5 else '%04d-%02d-%02d' % ymd(c), '节', w, '%08d' % t))
    return {'op': 'object', 'day': c, 't': t, 'name': '节', 'work': w}, R({'shown': view(a), 'text': call(a.toString)})


def work(rng, st, big=False, about=None):
    a = co.api()
    if about:
        n, k = about
        return {'op': 'work', 'n': n, 's': 0, 'k': k}, R({'full': full(call(mk(n, 0).next, k, True))})
    for _ in range(50):
        if st.get('hot') and rng.random() < 0.85:
            n = a.DN(*ymd(rng.choice(st['hot']))) + rng.randint(-2, 2)
        elif st['days'] and rng.random() < 0.7:
            n = a.DN(*ymd(rng.choice(st['days']))) + rng.randint(-12, 12)
        else:
            n = co.rday(rng)
        k = rng.choice((0, 1, 1, -1, 2, 3, 5, -5, 10, rng.randint(-30, 30), rng.randint(-260, 260) if big else 4))
        if co.FIRST + 500 < n < co.LAST - 500 or co.FIRST <= n <= co.LAST and (n + 2 * k + 12 * (k > 0) - 12 * (k < 0) in range(co.FIRST, co.LAST)):
            break
    s = co.rsec(rng)
    return {'op': 'work', 'n': n, 's': s, 'k': k}, R({'full': full(call(mk(n, s).next, k, True))})


def history(job):
    """one recorded history: corrections, queries and working-day steps in any order"""
    seed, length, pf, pw = job
    a = api()
    co.api()
    rng = random.Random(seed)
    st, events, n, bad = a.W0, [{'op': 'start', 'res': R({'ok': True})}], 0, []
    st = dict(st)
    st['days'] = sorted(st['recs'])
    if rng.random() < 0.6:                  # a history that keeps coming back to a few days
        d = co.api().DN(*ymd(rcode(rng, st)))
        d = min(max(d, co.FIRST + 600), co.LAST - 600)
        st['hot'] = [a.Code(co.api().DateOf(d + i)) for i in range(rng.choice((2, 4, 9)))]
    plan = []
    for _ in range(length - 1):
        r = rng.random()
        if plan:
            x = plan.pop(0)
            if isinstance(x, dict):
                ev, res = x, do_fix(rng, x)
            elif x[0] == 'work':
                ev, res = work(rng, st, about=x[1])
            else:
                ev, res = query(rng, st, about=x)
        elif r < pf:
            ev = fix_event(rng, st)
            if ev['batch'] and rng.random() < 0.5:
                # the same questions before and after the correction
                c = rng.choice(ev['batch'])['day']
                m = co.api().DN(*ymd(c))
                qs = [(rng.random() * 0.95, c) if pw < 0.3 or rng.random() < 0.3 or not co.FIRST + 600 < m < co.LAST - 600 else ('work', (m - rng.choice((1, 1, 2)), 1)) for _ in range(rng.choice((1, 2, 3)))]
                plan = qs[1:] + [ev] + qs
                ev, res = work(rng, st, about=qs[0][1]) if qs[0][0] == 'work' else query(rng, st, about=qs[0])
            else:
                res = do_fix(rng, ev)
        elif r < pf + pw:
            ev, res = work(rng, st)
        else:
            ev, res = query(rng, st)
        n += 1
        if not judge(lambda e: a.WExpect(R(st), e), dict(ev, res=res), res, bad, 'holiday history'):
            bad[-1][1]['history'] = [e for e in events if e['op'] == 'fix'][-30:]
            bad[-1][1]['seed'] = seed
            break
        if ev['op'] == 'fix':
            st = dict(a.WApply(R(st), ev))
            st['days'] = sorted(st['recs'])
        events.append(dict(ev, res=res))
    # in the end, every record of the store
    ys = sorted({d // 10000 for d in st['recs']})
    for y in ys if not bad else ():
        res = R({'found': views(call(HolidayUtil.getHolidays, y))})
        n += 1
        if not judge(lambda e: a.WExpect(R(st), e), {'op': 'year', 'y': y, 'res': res}, res, bad, 'final store'):
            bad[-1][1]['history'] = [e for e in events if e['op'] == 'fix'][-30:]
    return {'n': n, 'bad': bad[:3], 'keep': [events] if len(events) == length else []}
