"""C12: fortune cycles."""
import random

import c09
import civilobs as co
import dateobs
import lunarobs as lo
import termobs as to
import vlib
from civilobs import full, mk
from lunar_python.eightchar import DaYun, LiuNian, XiaoYun
from tla2py import R
from vlib import call, judge


def api():
    return lo.api('LuckApi')


def borders(l):
    return {'prev': to.inst(call(lambda: l.getPrevJie().getSolar())), 'next': to.inst(call(lambda: l.getNextJie().getSolar()))}


def life_res(l, yun, b, c):
    if isinstance(yun, str):
        return R(dict(b, raised=yun))
    return R(dict(b, forward=call(yun.isForward), gender=call(yun.getGender),
                  off=(call(yun.getStartYear), call(yun.getStartMonth), call(yun.getStartDay), call(yun.getStartHour)), start=full(call(yun.getStartSolar)), cycles=(len(yun.getDaYun()), len(yun.getDaYun(c)))))


def cycle_res(d, i, b, c):
    if isinstance(d, str):
        return R(dict(b, raised=d))
    return R(dict(b, index=call(d.getIndex), years=(call(d.getStartYear), call(d.getEndYear)), ages=(call(d.getStartAge), call(d.getEndAge)),
                  pillar=call(d.getGanZhi), xun=() if i == 0 else (call(d.getXun), call(d.getXunKong)), counts=(len(d.getLiuNian()), len(d.getXiaoYun()), len(d.getLiuNian(c)), len(d.getXiaoYun(c)))))


def yearin_res(ln, xy, b):
    if isinstance(ln, str) or isinstance(xy, str):
        return R(dict(b, raised=(ln, xy)))

    def one(x):
        return (call(x.getIndex), call(x.getYear), call(x.getAge), call(x.getGanZhi), call(x.getXun), call(x.getXunKong))
    return R(dict(b, year=one(ln), minor=one(xy),
                  months=tuple((m.getIndex(), m.getMonthInChinese(), call(m.getGanZhi), call(m.getXun), call(m.getXunKong)) for m in ln.getLiuYue())))


def birth_events(a, rng, base, deep, bad):
    """all the records of one birth; base carries n, s, gender, sect (and k at a term's own instant)"""
    out = []
    l = c09.lunar_at(base['n'], base['s'], rng.random() < 0.5)
    b = borders(l)
    yun = call(lambda: l.getEightChar().getYun(base['gender'], base['sect']) if base['sect'] == 2 or rng.random() < 0.5 else l.getEightChar().getYun(base['gender']))
    base['c'] = rng.choice((1, 2, 3, 7, 9, 11, 12, 25))
    out.append((dict(base, op='life'), life_res(l, yun, b, base['c'])))
    if isinstance(yun, str):
        return out
    ds = call(lambda: yun.getDaYun() if rng.random() < 0.5 else yun.getDaYun(13))
    if isinstance(ds, str):
        return out + [(dict(base, op='cycle', i=0), R(dict(b, raised=ds)))]
    pick = range(len(ds)) if deep else [0, rng.randrange(1, len(ds))]
    for i in list(pick) + ([rng.choice((59, 60, 61, 75, 120))] if rng.random() < 0.3 else []):
        d = ds[i] if i < len(ds) else call(DaYun, yun, i)
        out.append((dict(base, op='cycle', i=i), cycle_res(d, i, b, base['c'])))
        if isinstance(d, str):
            continue
        ns, xs = d.getLiuNian(), d.getXiaoYun()
        for j in (range(len(ns)) if deep else rng.sample(range(len(ns)), min(2, len(ns)))):
            if j < len(xs):
                out.append((dict(base, op='yearin', i=i, j=j), yearin_res(ns[j], xs[j], b)))
        if rng.random() < 0.2:
            j = rng.randrange(0, 40) if i else rng.randrange(0, max(1, len(ns)))
            if len(ns) or i:
                m = call(lambda: (d.getLiuNian(j + 1)[j], d.getXiaoYun(j + 1)[j]))
                if not isinstance(m, str):
                    out.append((dict(base, op='yearin', i=i, j=j), yearin_res(m[0], m[1], b)))
    return out


def birth_job(job):
    seed, count, lo_y, hi_y = job
    a = api()
    rng = random.Random(seed)
    bad, n, keep = [], 0, []
    for _ in range(count):
        y = rng.randint(lo_y, hi_y)
        base = {'gender': rng.randint(0, 1), 'sect': rng.choice((1, 2))}
        if rng.random() < 0.25:
            k = a.TermIx(y, rng.randrange(0, 31, 2 if rng.random() < 0.8 else 1))
            o = to.instant_of(k)
            d = rng.choice((-61, -60, -1, 0, 1, 59, 60, 3600, 7200))
            t = a.MAdd(o[0], o[1], d)
            base.update(n=t[0], s=t[1], k=k - 1 if d < 0 else k)
        else:
            base.update(n=co.rday(rng, co.FIRST, co.LAST) if rng.random() < 0.2 else a.DN(y, rng.randint(1, 12), rng.randint(1, 4)) + rng.randint(0, 26), s=c09.rs(rng))
            if not to.clear(base['n'], base['s']):
                continue
        if not co.FIRST + 40 <= base['n'] <= co.LAST or not to.clearday(base['n']):
            continue
        for e, r in birth_events(a, rng, base, rng.random() < 0.06, bad):
            n += 1
            if judge(a.Facts, dict(e, res=r), r, bad, 'fortune cycles') and rng.random() < 0.02:
                keep.append(dict(e, res=r))
        if rng.random() < 0.2:           # the same birth for the other gender and convention; births that share all but one thing with others
            kin = [(base['n'], base['s'])] + (dateobs.crowd(y, rng.randrange(9999), 1) if rng.random() < 0.5 else [])
            four = [(m, g, x) for m in kin for g in (0, 1) for x in (1, 2)]
            rng.shuffle(four)
            for m, g, x in four:
                if 'k' in base and len(kin) == 1:
                    b = dict(base, gender=g, sect=x)
                elif to.clear(*m) and m[0] >= co.FIRST + 40:
                    b = {'n': m[0], 's': m[1], 'gender': g, 'sect': x}
                else:
                    continue
                for e, r in birth_events(a, rng, b, False, bad):
                    n += 1
                    judge(a.Facts, dict(e, res=r), r, bad, 'fortune cycles')
        if len(bad) > 5:
            break
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def life_walk(job):
    """a whole life, year by year, through the cycle objects in order"""
    seed, count, length = job
    a = api()
    n, bad, kept = 0, [], []
    for w in range(count):
        rng = random.Random(seed * 1000 + w)
        while True:
            e = {'op': 'born', 'n': co.rday(rng, co.FIRST + 40, co.LAST - 100), 's': c09.rs(rng), 'gender': rng.randint(0, 1), 'sect': rng.choice((1, 2)), 'c': rng.randint(1, 30)}
            if to.clear(e['n'], e['s']) and to.clearday(e['n']):
                break
        l = c09.lunar_at(e['n'], e['s'], False)
        yun = call(lambda: l.getEightChar().getYun(e['gender'], e['sect']))
        r = life_res(l, yun, borders(l), e['c'])
        st, events, n = a.W0, [], n + 1
        if not judge(lambda x: a.WExpect(st, x), dict(e, res=r), r, bad, 'birth'):
            continue
        st = a.WApply(st, dict(e, res=r))
        events.append(dict(e, res=r))
        ds = call(lambda: yun.getDaYun(length // 10 + 2))
        if isinstance(ds, str):
            bad.append(('the cycles raise ' + ds, e, ['raised']))
            continue
        met = [(d, x, y) for d in ds for x, y in zip(d.getLiuNian(), d.getXiaoYun())]
        for d, x, y in met[:length - 1]:
            r = R({'cycle': d.getIndex(), 'year': x.getYear() if x.getYear() == y.getYear() else (x.getYear(), y.getYear()),
                   'age': x.getAge() if x.getAge() == y.getAge() else (x.getAge(), y.getAge()), 'pillar': call(x.getGanZhi), 'minor': call(y.getGanZhi), 'cyclepillar': call(d.getGanZhi)})
            n += 1
            if not judge(lambda z: a.WExpect(st, z), {'op': 'year', 'at': dict(st)}, r, bad, 'life year'):
                break
            st = a.WApply(st, {'op': 'year'})
            events.append({'op': 'year', 'res': r})
        if len(events) == length:
            kept.append(events)
    return {'n': n, 'bad': bad[:5], 'keep': kept[:1]}


MODEL = '''CONSTANTS Births = {%s} Starts = {0, 1, 2, 5, 9, 10, 11} MaxMinutes = %d
SPECIFICATION Spec
INVARIANTS InCycle Tiling Pillars12 Minutes Periods Borrow
CHECK_DEADLOCK FALSE
'''
BIND = ('W0', 'WExpect', 'WApply')


def run(ctx):
    api()
    to.api()
    co.api()
    ctx.model('MC_Luck', MODEL % ('1, 1990, 2023', 46080), workers=4)
    jobs = [(ctx.seed * 1000 + i, 36, 1900, 2100) for i in range(48)] + [(ctx.seed * 1000 + 500 + i, 36, 2, 9998) for i in range(48)] + [(ctx.seed * 1000 + 900, 40, 9999, 9999)]
    if ctx.thorough:
        jobs = [(j[0] * 100 + x, 80, j[2], j[3]) for j in jobs for x in range(20)]
    k = ctx.sweep(birth_job, jobs, 'birth records', init=vlib.memo_years)
    w = ctx.sweep(life_walk, [(ctx.seed * 457 + i, 2 if not ctx.thorough else 60, 100) for i in range(64)], 'life years', init=vlib.memo_years)
    ctx.rng.shuffle(k)
    k = k[:800]
    w = [x for c in w[:40] for x in c]
    for e in k[:3] + w[:3]:
        ctx.sample(e)
    ctx.trace('Trace_Luck', k, bind='Facts', chunk=50)
    ctx.trace('Trace_LuckWalk', w, bind=BIND, chunk=100)
    vlib.self_test(ctx, 'Trace_Luck', k, 40, bind='Facts')
    vlib.self_test(ctx, 'Trace_LuckWalk', w, 100, bind=BIND)
    ctx.assumptions += ['births from 0001-02 on', 'the pre-start cycle has no pillar; its decade is not judged', 'term instants of the release to two seconds']
