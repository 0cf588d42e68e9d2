"""C23: queries are pure."""
import hashlib
import inspect
import os
import pickle
import random

import c09
import civilobs as co
import dateobs
import lunarobs as lo
import vlib
from lunar_python import (EightChar, Foto, Lunar, LunarMonth, LunarTime, LunarYear, NineStar, Solar, SolarHalfYear, SolarMonth, SolarSeason,
                          SolarWeek, SolarYear, Tao)
from lunar_python.util import FotoUtil, HolidayUtil, LunarUtil, SolarUtil, TaoUtil
from tla2py import R
from vlib import call, judge

CLASS = {'S': Solar, 'L': Lunar, 'E': EightChar, 'F': Foto, 'T': Tao, 'H': LunarTime, 'Y': LunarYear, 'M': LunarMonth, 'W': SolarWeek, 'SM': SolarMonth,
         'SS': SolarSeason, 'SH': SolarHalfYear, 'SY': SolarYear, 'N': NineStar}
SUMMARY = ('toString', 'toFullString', 'toYmdHms', 'getName', 'getIndex', 'getYear', 'getMonth', 'getDay', 'getStartYear', 'getEndYear', 'getStartAge', 'getEndAge',
           'getStartMonth', 'getStartDay', 'getStartHour', 'isForward', 'getGanZhi', 'getAge', 'getDayCount', 'getFirstJulianDay', 'isLeap', 'getMonthInChinese', 'getRemark', 'getResult')


def api():
    return lo.api('Purity')


def canon(v, depth=0):
    if v is None or isinstance(v, (bool, int, float, str)):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(canon(x, depth) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ','.join(canon(k) + ':' + canon(x, depth) for k, x in v.items()) + '}'
    if depth > 3:
        return type(v).__name__
    out = [type(v).__name__]
    for s in SUMMARY:
        f = getattr(v, s, None)
        if f is not None:
            out.append(canon(call(f), depth + 1))
    for s in ('getSolar', 'getDaYun', 'getLiuNian', 'getStartSolar'):
        f = getattr(v, s, None)
        if f is not None and (s != 'getLiuNian' or depth < 3) and (s != 'getSolar' or type(v).__name__ == 'JieQi'):
            out.append(canon(call(f), depth + 1 if s != 'getLiuNian' else 4))
    return '(' + ';'.join(out) + ')'


QUERIES = {}


def queries(kind):
    """all questions an object of this kind answers without help, and those with a few arguments"""
    if kind in QUERIES:
        return QUERIES[kind]
    out = []
    if kind == 'U':
        for u, name, args in (('L', 'getTimeZhiIndex', ('13:05',)), ('L', 'convertTime', ('23:30',)), ('L', 'getJiaZiIndex', ('丙寅',)), ('L', 'getDayYi', ('甲子', '乙丑')), ('L', 'getDayJi', ('丙寅', '甲午')),
                              ('L', 'getDayJiShen', (-4, '甲子')), ('L', 'getDayXiongSha', (8, '癸酉')), ('L', 'getTimeYi', ('甲子', '丙寅')), ('L', 'getTimeJi', ('甲子', '丙寅')), ('L', 'getXun', ('庚午',)),
                              ('L', 'getXunKong', ('壬申',)), ('S', 'isLeapYear', (1900,)), ('S', 'getDaysOfYear', (1582,)), ('S', 'getDaysOfMonth', (2024, 2)), ('S', 'getDaysInYear', (2024, 12, 31)),
                              ('S', 'getWeeksOfMonth', (2022, 5, 1)), ('S', 'getDaysBetween', (2020, 1, 1, 2021, 3, 1)), ('H', 'getHoliday', ('2020-10-01',)), ('H', 'getHoliday', (2016, 10, 4)),
                              ('H', 'getHolidays', (2012, 1)), ('H', 'getHolidays', ('2019',)), ('H', 'getHolidaysByTarget', ('2015-10-01',)), ('F', 'getXiu', (-5, 12))):
            out.append('%s.%s%s' % (u, name, args if len(args) > 1 else '(%r)' % args[0]))
    else:
        c = CLASS[kind]
        for name in sorted(dir(c)):
            if name.startswith('_') or not name.startswith(('get', 'is', 'to')):
                continue
            f = inspect.getattr_static(c, name)
            if not inspect.isfunction(f):
                continue
            ps = [p for p in list(inspect.signature(f).parameters.values())[1:] if p.kind not in (p.VAR_POSITIONAL, p.VAR_KEYWORD)]
            if all(p.default is not p.empty for p in ps):
                out.append(name + '()')
                if len(ps) == 1:
                    d = ps[0].default
                    out += ['%s(%r)' % (name, x) for x in ((1, 2, 3) if isinstance(d, int) and not isinstance(d, bool) else (True, False) if isinstance(d, bool) else ())]
        out += {'S': ['next(1)', 'next(-400)', 'next(3, True)', 'nextMonth(1)', 'nextMonth(-25)', 'nextYear(4)', 'nextHour(-30)', 'nextHour(5)', 'getJulianDay()'],
                'L': ['next(1)', 'next(-30)', 'next(385)'], 'E': ['getYun(1)', 'getYun(0)', 'getYun(1, 2)', 'getYun(0, 2)'], 'Y': ['next(1)', 'next(-2)', 'getMonth(1)', 'getMonth(-4)', 'getMonth(12)'],
                'M': ['next(1)', 'next(-1)', 'next(14)', 'next(-27)'], 'W': ['next(1, False)', 'next(-3, False)', 'next(1, True)', 'next(-7, True)'], 'SM': ['next(1)', 'next(-30)', 'getWeeks(0)', 'getWeeks(1)'],
                'SS': ['next(1)', 'next(-9)'], 'SH': ['next(1)', 'next(-3)'], 'SY': ['next(1)', 'next(-3)']}.get(kind, [])
    QUERIES[kind] = out
    return out


def make(k, a, b, route=0):
    s = api()
    if k in ('S', 'L', 'E', 'F', 'T', 'H'):
        if k == 'S':
            return co.mk(a, b) if route % 2 == 0 else co.mk(a - 17, b).next(17)
        lun = s.LunarOf(a)
        f = tuple(lun) + tuple(s.HMS(b))
        if k == 'F' and route % 3 == 1:
            return Foto.fromYmdHms(f[0] + 544, *f[1:])
        if k == 'T' and route % 3 == 1:
            return Tao.fromYmdHms(f[0] + 2697, *f[1:])
        if k == 'H' and route % 3 == 1:
            return LunarTime.fromYmdHms(*f)
        L = co.mk(a, b).getLunar() if route % 3 == 0 else Lunar.fromYmdHms(*f) if route % 3 == 1 else Lunar.fromSolar(co.mk(a, b))
        return {'L': lambda: L, 'E': lambda: L.getEightChar() if route % 2 else EightChar.fromLunar(L), 'F': lambda: L.getFoto(), 'T': lambda: L.getTao(), 'H': lambda: L.getTime()}[k]()
    if k == 'Y':
        return LunarYear.fromYear(a) if route % 2 == 0 else LunarYear(a)
    if k == 'M':
        y, m = s.Label(a)
        return LunarMonth.fromYm(y, m) if route % 2 == 0 else LunarYear.fromYear(y).getMonth(m)
    if k == 'W':
        return SolarWeek.fromYmd(*s.DateOf(a), b)
    if k in ('SM', 'SS', 'SH'):
        return CLASS[k].fromYm(a, b)
    if k == 'SY':
        return SolarYear.fromYear(a)
    return NineStar.fromIndex(a) if k == 'N' else None


def derive(o, how, x):
    d = {'day': lambda: o.next(x), 'lunar': lambda: o.getLunar(), 'solar': lambda: o.getSolar(), 'foto': lambda: o.getFoto(), 'tao': lambda: o.getTao(), 'time': lambda: o.getTime(),
         'chart': lambda: o.getEightChar(), 'newchart': lambda: EightChar.fromLunar(o), 'year': lambda: LunarYear.fromYear(o.getYear()), 'month': lambda: LunarMonth.fromYm(o.getYear(), o.getMonth()),
         'week': lambda: SolarWeek.fromYmd(o.getYear(), o.getMonth(), o.getDay(), x), 'step': lambda: o.next(x)}
    return d[how]()


def switch(o, k, sect):
    (o.getEightChar() if k == 'L' else o).setSect(sect)


def ask(o, k, q):
    """the answer itself, and its digest"""
    if k == 'U':
        u = {'L': LunarUtil, 'S': SolarUtil, 'H': HolidayUtil, 'F': FotoUtil}[q[0]]
        name, args = q[2:].split('(', 1)
        name, args = name.strip(), '(' + args
        args = eval('(' + args[1:-1] + ',)')
        v = call(getattr(u, name), *args)
    else:
        name, args = q.split('(', 1)
        v = call(getattr(o, name), *eval('(' + args[:-1] + (',)' if args != ')' else ')')))
    t = canon(v)
    return v, t


def safe(o, k, q):
    x = call(ask, o, k, q)
    return (None, x) if isinstance(x, str) else x


def h(t):
    return hashlib.sha1(t.encode('utf-8', 'replace')).hexdigest()[:12]


def once(k, a, b, sect, q):
    o = make(k, a, b)
    if sect not in (0, 2):
        switch(o, k, sect)
    return ask(o, k, q)[1]


def pure(key):
    """asked of a new object in a process that was asked nothing else; this process must not have used the library"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            t = call(once, *key)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(t, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        t = pickle.load(f)
    os.waitpid(pid, 0)
    return t


HOWS = {'S': ('day', 'lunar', 'week'), 'L': ('day', 'solar', 'foto', 'tao', 'time', 'chart', 'newchart', 'year', 'month'), 'F': ('lunar',), 'T': ('lunar',), 'Y': ('step',), 'M': ('step',),
        'SY': ('step',), 'E': (), 'H': (), 'W': (), 'SM': (), 'SS': (), 'SH': (), 'N': (), 'U': ()}
KINDS = ('S',) * 3 + ('L',) * 8 + ('E',) * 3 + ('F', 'T', 'H', 'Y', 'M', 'W', 'SM', 'SS', 'SH', 'SY', 'N', 'U')


def feast(rng, s):
    """a day some festival table has an entry for"""
    t = rng.choice((LunarUtil.FESTIVAL, LunarUtil.OTHER_FESTIVAL, LunarUtil.OTHER_FESTIVAL, FotoUtil.FESTIVAL, FotoUtil.OTHER_FESTIVAL, TaoUtil.FESTIVAL, SolarUtil.FESTIVAL, SolarUtil.OTHER_FESTIVAL))
    m, d = (int(x) for x in rng.choice(sorted(t)).split('-'))
    y = rng.randrange(20, 9990)
    if t in (SolarUtil.FESTIVAL, SolarUtil.OTHER_FESTIVAL):
        return s.DN(y, m, d)
    return s.DayOfLunar(y, m, d) if s.LunarExists(y, m, d) else s.DN(y, 2, 20)


def script(rng, length, focus):
    """a session: objects whose values crowd around a few moments, questions drawn again and again"""
    s = api()
    base = []
    for _ in range(rng.choice((1, 2, 3))):
        n = feast(rng, s) if rng.random() < 0.4 else lo.rday(rng, s) if rng.random() < 0.6 else co.rday(rng, co.FIRST, co.LAST)
        n = min(max(n, co.FIRST + 2000), co.LAST - 2000)
        base.append((n, c09.rs(rng)))
    pool = {}
    for k in set(KINDS):
        qs = queries(k)
        pool[k] = rng.sample(qs, min(len(qs), 6)) + [q for q in qs if 'Festivals' in q or 'EightChar' in q or q.startswith('getYun') or 'JieQi' in q][:6]
    st, ev = s.W0, [{'op': 'reset'}]

    def add(e):
        nonlocal st
        ev.append(e)
        st = s.WApply(st, e)

    def fit(v):
        return all(isinstance(x, (int, str)) for x in v.values())
    asked, plan = [], []
    while len(ev) < length:
        r = rng.random()
        objs = st['objs']
        if plan:
            p = plan.pop(0)
            if 'ask' in p:
                i, q = p['ask']
                asked.append((i, q))
                add({'op': 'ask', 'i': i, 'q': q, 'key': s.Key(st, i, q), 'pure': ''})
            else:
                add(p)
            continue
        if rng.random() < 0.05 and len(objs) < 12:
            # two equal objects one after the other, one of them used, the other asked
            k = rng.choice((focus or 'L', 'L', 'E', rng.choice(KINDS)))
            if k in ('S', 'L', 'E', 'F', 'T', 'H'):
                n, c = rng.choice(base)
                e = {'op': 'make', 'k': k, 'a': n, 'b': rng.randrange(82800, 86400) if rng.random() < 0.5 else c, 'route': rng.randrange(6)}
                i = len(objs) + 1
                q = [rng.choice(pool[k] if rng.random() < 0.7 else queries(k)) for _ in range(2)]
                if k in 'LE' and rng.random() < 0.5:
                    q[0] = 'getEightChar()' if k == 'L' else 'getDay()'
                plan = [e, dict(e)] + [{'ask': (i + 1, q[0])}] * rng.randrange(2) + [{'op': 'switch', 'i': i, 'sect': 1} if k in 'LE' else {'ask': (i, q[1])}] + [{'ask': (i + 1, x)} for x in q]
                continue
        if not objs or (r < 0.16 and len(objs) < 14):
            k = focus if focus and rng.random() < 0.6 else rng.choice(KINDS)
            n, c = rng.choice(base)
            if rng.random() < 0.4:
                n += rng.choice((-1, 1, 1, 29, 30, 354, 365, -365))
            if rng.random() < 0.3:
                c = c09.rs(rng)
            y, m, d = s.DateOf(n)
            a, b = {'Y': (s.LunarOf(n)[0], 0), 'M': (s.MoonAt(n), 0), 'W': (n, rng.randrange(7)), 'SM': (y, m), 'SS': (y, m), 'SH': (y, m), 'SY': (y, 0), 'N': (rng.randrange(9), 0), 'U': (0, 0)}.get(k, (n, c))
            add({'op': 'make', 'k': k, 'a': a, 'b': b, 'route': rng.randrange(6)})
            continue
        i = rng.randrange(len(objs)) + 1
        o = objs[i - 1]
        if r < 0.28 and HOWS[o['k']] and len(objs) < 14:
            how = rng.choice(HOWS[o['k']])
            add({'op': 'derive', 'i': i, 'how': how, 'x': rng.randrange(7) if how == 'week' else rng.choice((1, 1, 2, -1, 15, -30))})
        elif r < 0.36 and o['k'] in ('L', 'E'):
            add({'op': 'switch', 'i': i, 'sect': rng.choice((1, 2))})
        else:
            if asked and rng.random() < 0.4:
                i, q = rng.choice(asked)
            else:
                q = rng.choice(pool[o['k']] if rng.random() < 0.8 else queries(o['k']))
            asked.append((i, q))
            add({'op': 'ask', 'i': i, 'q': q, 'key': s.Key(st, i, q), 'pure': ''})
    for i, q in rng.sample(asked, min(len(asked), 15)):
        add({'op': 'ask', 'i': i, 'q': q, 'key': s.Key(st, i, q), 'pure': ''})
    return ev


def job(job):
    seed, count, length = job
    s = api()
    n, bad, kept = 0, [], []
    scripts = []
    for w in range(count):
        rng = random.Random(seed * 1000 + w)
        scripts.append(script(rng, length, rng.choice((None, 'L', 'L', 'E', 'Y', 'M', 'S', 'F'))))
    # answers of processes that were asked one question each: before this one uses the library
    ref = {}
    for ev in scripts:
        for e in ev:
            if e['op'] == 'ask' and e['key'] not in ref:
                ref[e['key']] = pure(e['key'])
    for w, ev in enumerate(scripts):
        st, objs, out = s.W0, [], []
        for e in ev:
            e = dict(e)
            if e['op'] == 'ask':
                t = ref[e.pop('key')]
                e['pure'] = h(t)
                k = st['objs'][e['i'] - 1]['k']
                v, got = safe(objs[e['i'] - 1], k, e['q'])
                r = R({'ans': h(got)})
                if 'Festivals' in e['q'] and isinstance(v, list):           # the caller does as it likes with its list
                    v[:] = ['顽']
                shown = {'fresh': t[:200], 'got': got[:200]}
            else:
                shown = {}
                try:
                    if e['op'] == 'make':
                        objs.append(make(e['k'], e['a'], e['b'], e['route']))
                    elif e['op'] == 'derive':
                        objs.append(derive(objs[e['i'] - 1], e['how'], e['x']))
                    elif e['op'] == 'switch':
                        switch(objs[e['i'] - 1], st['objs'][e['i'] - 1]['k'], e['sect'])
                    else:
                        objs = []
                    r = R({'done': True})
                except Exception as x:      # noqa: BLE001
                    r = R({'done': repr(x)[:100]})
            n += 1
            if not judge(lambda z: s.WExpect(st, z), dict(e, of=dict(st['objs'][e['i'] - 1]) if 'i' in e else 0, **shown), r, bad, 'a query is not a function of the value'):
                bad[-1][1]['history'] = [{k: v for k, v in z.items() if k not in ('res', 'pure')} for z in out[-25:]]
                break
            st = s.WApply(st, e)
            out.append(dict(e, res=r))
        if w == 0 and not bad:
            kept.append(out)
        if bad:
            break
    return {'n': n, 'bad': bad[:3], 'keep': kept}


def table_job(job):
    """every query of a kind, in random order, twice, over two equal objects and a near one"""
    kind, a, b, seed = job
    s = api()
    rng = random.Random(seed)
    qs = list(queries(kind))
    ref = {q: pure((kind, a, b, 2 if kind in 'LE' else 0, q)) for q in qs}
    bad, n = [], 0
    objs = [call(make, kind, a, b, r) for r in (0, 1, 5)]
    for rnd in range(2):
        rng.shuffle(qs)
        for q in qs:
            for o in rng.sample(objs, 2):
                v, got = safe(o, kind, q)
                if 'Festivals' in q and isinstance(v, list):
                    v[:] = ['顽']
                n += 1
                st = s.WApply(s.W0, {'op': 'make', 'k': kind, 'a': a, 'b': b})
                judge(lambda z: s.WExpect(st, z), {'op': 'ask', 'i': 1, 'q': q, 'pure': h(ref[q]), 'of': (kind, a, b), 'fresh': ref[q][:200], 'got': got[:200]}, R({'ans': h(got)}), bad, 'a query is not a function of the value')
    return {'n': n, 'bad': bad[:3]}


def all_of(k, a, b, sect, qs):
    """every answer of one value, by a process that was asked of no other value"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            t = {q: call(once, k, a, b, sect, q) for q in qs}
            with os.fdopen(w, 'wb') as f:
                pickle.dump(t, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        t = pickle.load(f)
    os.waitpid(pid, 0)
    return t


def kindred(kind, rng):
    """values of a kind that differ in little"""
    s = api()
    y = rng.randint(1800, 2200) if rng.random() < 0.6 else rng.randint(250, 9900)
    if kind == 'Y':
        return [(v, 0) for v in (y, y + 60, y + 180 if y < 9800 else y - 180, y + 1, y + 19)]
    if kind == 'M':
        leaps = [i for z in range(y, y + 9) for i in range(s.FirstMoon(z), s.FirstMoon(z + 1)) if s.Label(i)[1] < 0]
        i = leaps[0] if leaps else s.FirstMoon(y)
        z, m = s.Label(i)
        return [(v, 0) for v in (i, i - 1, i + 1, s.FindMonth(z + 60, abs(m)), s.FindMonth(z + 1, abs(m)))]
    if kind == 'W':
        n = s.DN(y, rng.randint(1, 12), rng.randint(1, 28)) if y != 1582 else s.DN(1582, 11, 3)
        return [(n, x) for x in range(7)] + [(n + d, 1) for d in (1, 7, 28, 365, 1461)]
    if kind in ('SM', 'SS', 'SH'):
        m = rng.randint(1, 12)
        return [(y, m), (y + 1, m), (y, m % 12 + 1), (y, (m + 5) % 12 + 1), (y + 100 if y < 9800 else y - 100, m), (1582, m), (y // 100 * 100, m)]
    if kind == 'SY':
        return [(v, 0) for v in (y, y + 1, y + 4, 1582, y // 100 * 100 + 100)]
    if kind == 'N':
        return [(v, 0) for v in range(9)]
    if rng.random() < 0.6:
        while all(s.Label(i)[1] > 0 for i in range(s.FirstMoon(y), s.FirstMoon(y + 1))):
            y += 1
    c = dateobs.crowd(y, rng.randrange(9999), 1)
    k = max(range(len(c)), key=lambda i: s.LunarOf(c[i][0])[1] < 0)
    near = [x for x in c if abs(x[0] - c[k][0]) < 70 or s.LunarOf(x[0])[1:] == s.LunarOf(c[k][0])[1:]] if s.LunarOf(c[k][0])[1] < 0 else []
    c = near + [x for x in c if x not in near]
    return list(dict.fromkeys(c))[:13 if kind != 'E' else 8]


def kin_job(job):
    """values that differ in little, asked the same questions one after the other"""
    kind, seed = job
    s = api()
    rng = random.Random(seed)
    qs = list(queries(kind))
    if kind == 'E':
        qs = [q for q in qs if not q.startswith('getYun')] + rng.sample([q for q in qs if q.startswith('getYun')], 3)
    vals = [v + (x,) for v in kindred(kind, rng) for x in ((1, 2) if kind == 'E' else (0,))]
    ref = {v: all_of(kind, v[0], v[1], v[2], qs) for v in vals}
    bad, n = [], 0
    objs, states = {}, {}
    for v in vals:
        o = call(make, kind, v[0], v[1], rng.randrange(6))
        st = s.WApply(s.W0, {'op': 'make', 'k': kind, 'a': v[0], 'b': v[1]})
        if v[2]:
            call(switch, o, kind, v[2])
            st = s.WApply(st, {'op': 'switch', 'i': 1, 'sect': v[2]})
        objs[v], states[v] = o, st
    rng.shuffle(qs)
    for q in qs:
        rng.shuffle(vals)
        for v in vals:
            r, got = safe(objs[v], kind, q)
            if 'Festivals' in q and isinstance(r, list):
                r[:] = ['顽']
            n += 1
            judge(lambda z: s.WExpect(states[v], z), {'op': 'ask', 'i': 1, 'q': q, 'pure': h(ref[v][q]), 'of': (kind,) + v, 'fresh': ref[v][q][:200], 'got': got[:200]}, R({'ans': h(got)}), bad, 'a query is not a function of the value')
        if len(bad) > 3:
            break
    return {'n': n, 'bad': bad[:3]}


MODEL = '''CONSTANTS Design = "%s" Objects = {1, 2, 3} Values = {2, 3, 4, 6}
SPECIFICATION Spec
INVARIANT Pure
PROPERTY Stay
CHECK_DEADLOCK FALSE
'''


def run(ctx):
    s = api()
    c09.api()
    co.api()
    ctx.model('MC_Purity', MODEL % 'pure', workers=4)
    for d in ('sharedchart', 'stalekey', 'aliased', 'drift'):
        r = vlib.run_tlc('MC_Purity', MODEL % d, workers=4)
        if r.ok or not r.violated:
            raise vlib.Machinery('MC_Purity accepts the design %s\n%s' % (d, r.tail()))
        ctx.notes['rejected_design_' + d] = r.violated
    w = ctx.sweep(job, [(ctx.seed * 557 + i, 3 if not ctx.thorough else 30, 110) for i in range(64 if not ctx.thorough else 200)], 'session steps', fresh=True)
    many = ctx.thorough
    js = [(k, ctx.seed * 7919 + i) for k, c in (('L', 32), ('E', 12), ('S', 8), ('F', 10), ('T', 10), ('H', 6), ('Y', 6), ('M', 6), ('W', 4), ('SM', 3), ('SS', 2), ('SH', 2), ('SY', 2), ('N', 1)) for i in range(c * (20 if many else 1))]
    ctx.sweep(kin_job, js, 'answers of kindred values', fresh=True)
    js, rng = [], ctx.rng
    for i in range(6 if not ctx.thorough else 100):
        n, c = min(max(lo.rday(rng, s), co.FIRST + 2000), co.LAST - 2000), c09.rs(rng)
        y, m, d = s.DateOf(n)
        for k in CLASS:
            a, b = {'Y': (s.LunarOf(n)[0], 0), 'M': (s.MoonAt(n), 0), 'W': (n, i % 7), 'SM': (y, m), 'SS': (y, m), 'SH': (y, m), 'SY': (y, 0), 'N': (i % 9, 0)}.get(k, (n, c))
            js.append((k, a, b, ctx.seed + i))
    js.append(('U', 0, 0, ctx.seed))
    ctx.sweep(table_job, js, 'query answers', fresh=True)
    w = [x for x in w if len(x) > 100]
    L = min(len(x) for x in w) if w else 0
    w = [e for x in w[:16] for e in x[:L]]
    for e in w[:6]:
        ctx.sample(e)
    if w:
        ctx.trace('Trace_PurityWalk', w, bind=('W0', 'WExpect', 'WApply'), chunk=L)
        vlib.self_test(ctx, 'Trace_PurityWalk', w, L, bind=('W0', 'WExpect', 'WApply'))
    ctx.assumptions += ['an answer that is an object is compared by its printed forms and fields', 'the reference answer comes from a forked process that asked nothing else']
