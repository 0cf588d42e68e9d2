"""C08: solar terms and the queries around a moment."""
import random

import civilobs as co
import dateobs
import lunarobs as lo
import termobs as to
import vlib
from civilobs import mk
from lunar_python import JieQi, Solar
from tla2py import R
from vlib import call, judge


def facts(a, e, r, bad, what):
    return judge(a.Facts, dict(e, res=r), r, bad, what)


def year_job(job):
    """the table of a year, the queries around each of its terms and at random moments of it"""
    y, seed, dense = job
    a = to.api()
    rng = random.Random(seed * 77 + y)
    bad, n, keep = [], 0, []

    def do(e, r):
        nonlocal n
        n += 1
        if facts(a, e, r, bad, 'solar terms') and rng.random() < (0.02 if e['op'] == 'table' else 0.002):
            keep.append(dict(e, res=r))
    do({'op': 'table', 'y': y}, to.table_res(y))
    l = call(lambda: Solar.fromYmd(y, 6, 1).getLunar())
    if isinstance(l, str):
        return {'n': n, 'bad': bad[:5], 'keep': keep}
    own = [to.inst(l.getJieQiTable()[k]) for k in a.Names['inuse']]
    for i in (range(0, 31) if dense else rng.sample(range(0, 31), 5)):
        k = a.TermIx(y, i)
        for delta in (-1, 0, 1):
            t = a.MAdd(own[i][0], own[i][1], delta)
            if not co.FIRST <= t[0] <= co.LAST or not to.clearday(t[0]):
                continue
            do({'op': 'termat', 'k': k, 'delta': delta, 'n': t[0]}, to.near_res(mk(*t).getLunar()))
        for d in (-1, 0, 1):
            dn = a.TermN[k - 1] + d
            if co.FIRST <= dn <= co.LAST and to.clearday(dn):
                do({'op': 'on', 'n': dn}, to.on_res(mk(dn, rng.choice(co.SECS)).getLunar()))
    days = [a.DN(y, 1, 1) + d for d in (range(0, 366) if dense else [0, 1, 5, 6, 364] + rng.sample(range(0, 366), 4))]
    for dn in days:
        if not co.FIRST <= dn <= co.LAST or not to.clearday(dn):
            continue
        s = rng.randrange(86400) if rng.random() < 0.7 else rng.choice(co.SECS)
        if to.clear(dn, s):
            l = mk(dn, s).getLunar()
            do({'op': 'near', 'n': dn, 's': s}, to.near_res(l))
            do({'op': 'on', 'n': dn}, to.on_res(l))
            if rng.random() < 0.25:
                do({'op': 'table', 'y': a.DateOf(dn)[0]}, to.table_res(a.DateOf(dn)[0], l))
    for dn, s in dateobs.crowd(y, seed, 2):
        l = mk(dn, s).getLunar()
        do({'op': 'near', 'n': dn, 's': s}, to.near_res(l))
        do({'op': 'on', 'n': dn}, to.on_res(l))
    return {'n': n, 'bad': bad[:5], 'keep': keep}


def walk_job(job):
    seed, count, length = job
    a = to.api()
    n, bad, kept = 0, [], []
    for w in range(count):
        rng = random.Random(seed * 1000 + w)
        st, events, at_term = a.W0, [], False
        while len(events) < length:
            if not events:
                op = 'reset'
            else:
                op = rng.choice(('before', 'after', 'next') if at_term else ('next', 'prev', 'next', 'prev', 'reset'))
            e = {'op': op}
            if op == 'reset':
                dn, s = co.rday(rng, co.FIRST + 40, co.LAST - 40), rng.randrange(86400)
                if not to.clear(dn, s):
                    continue
                e.update(n=dn, s=s)
                cur, name = call(lambda: mk(dn, s).getLunar()), ''
                at_term = False
            elif op in ('next', 'prev'):
                if not co.FIRST + 40 < st['n'] < co.LAST - 40:
                    e = {'op': 'reset'}
                    continue
                kind = rng.choice(('all', 'jie', 'qi'))
                e['kind'] = kind
                f = getattr(cur, {'next': 'getNext', 'prev': 'getPrev'}[op] + {'all': 'JieQi', 'jie': 'Jie', 'qi': 'Qi'}[kind])
                j = call(f)
                name = j if isinstance(j, str) else 'None' if j is None else j.getName()
                cur = call(lambda: j.getSolar().getLunar())
                at_term = True
            else:
                t = a.MAdd(st['n'], st['s'], -1 if op == 'before' else 1)
                cur, name = call(lambda: mk(*t).getLunar()), ''
                at_term = False
            res = R({'at': to.inst(call(lambda: cur.getSolar())), 'name': name,
                     'prev': to.nm(call(lambda: cur.getPrevJieQi())), 'next': to.nm(call(lambda: cur.getNextJieQi()))})
            n += 1
            ev = dict(e, res=res)
            if not judge(lambda x: a.WExpect(st, x), dict(ev, at=dict(st)), res, bad, 'term walk'):
                break
            st = a.WApply(st, ev)
            events.append(ev)
        if w == 0 and len(events) == length:
            kept.append(events)
    return {'n': n, 'bad': bad[:5], 'keep': kept}


def rename_events(ctx):
    """term objects renamed in random order keep only the flags of their present name"""
    a = to.api()
    bad, ev = [], []
    j = JieQi(a.TermName(0), Solar.fromYmd(2000, 1, 1))
    for t in list(range(24)) + [ctx.rng.randrange(24) for _ in range(200)]:
        if ctx.rng.random() < 0.3:
            j = call(JieQi, a.TermName(t), Solar.fromYmd(2000, 1, 1))
        else:
            call(j.setName, a.TermName(t))
        r = R({'name': j.getName(), 'jie': j.isJie(), 'qi': j.isQi()})
        e = {'op': 'rename', 't': t}
        facts(a, e, r, bad, 'renamed term')
        ev.append(dict(e, res=r))
    for b in bad:
        ctx.violation(*b)
    ctx.eval('renamings', len(ev))
    return ev


MODEL = '''CONSTANTS Ks = {%s} Span = %d
SPECIFICATION Spec
INVARIANTS Counted Latest Spacing Cyclic KindsAlternate NearestPrev DayView
CHECK_DEADLOCK FALSE
'''
BIND = ('W0', 'WExpect', 'WApply')


def run(ctx):
    co.api()
    a = to.api()
    top = len(a.TermN) - 60
    step = 40 if not ctx.thorough else 400
    ks = ctx.rng.sample(range(2, top), 25) + [2, top - 5] if not ctx.thorough else list(range(2, top, 400))
    ctx.model('MC_Terms', MODEL % (', '.join(map(str, ks)), step), workers=8, timeout=1500, heap='6g')
    ev = rename_events(ctx)
    years = range(1, 10000)
    dense = set(ctx.rng.sample(list(years), 40)) | {1, 1582, 2020, 9999} if not ctx.thorough else set(range(1, 10000))
    k = ctx.sweep(year_job, [(y, ctx.seed, y in dense) for y in years], 'term queries', init=vlib.memo_years)
    w = ctx.sweep(walk_job, [(ctx.seed * 811 + i, 3 if not ctx.thorough else 40, 80) for i in range(64)], 'walk steps', init=vlib.memo_years)
    ctx.rng.shuffle(k)
    k = ev[:60] + k[:1500]
    w = [x for c in w[:40] for x in c]
    for e in k[60:63] + w[:4]:
        ctx.sample(e)
    ctx.trace('Trace_Term', k, bind='Facts', chunk=100)
    ctx.trace('Trace_TermWalk', w, bind=BIND, chunk=80)
    vlib.self_test(ctx, 'Trace_Term', k, 60, bind='Facts')
    ctx.assumptions += ['term instants of the release are taken as given to two seconds (spec/data/almanac.json)',
                        'moments within three seconds of a term are asked only relative to the library\'s own instant; days next to a term within three seconds of midnight are skipped']
