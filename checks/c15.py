"""C15: the shared lunar-year cache under every history and schedule."""
import random
import re
import sys
import threading

import sched
sched.patch()
import civilobs as co   # noqa: E402
import lunarobs as lo   # noqa: E402
import vlib             # noqa: E402
from lunar_python import Lunar, LunarMonth, LunarYear   # noqa: E402
from lunar_python.util import ShouXingUtil   # noqa: E402
from tla2py import R    # noqa: E402
from vlib import call, judge   # noqa: E402

YEARS = (2022, 2023, 2024, 2033, 1582, 239, 1)
REF = {}


def api():
    return lo.api('CacheApi')


def snap(ly):
    return (ly.getYear(), ly.toString(), ly.toFullString(), ly.getGanZhi(), tuple(ly.getJieQiJulianDays()),
            tuple((m.getYear(), m.getMonth(), m.getDayCount(), m.getFirstJulianDay(), m.getIndex(), m.isLeap()) for m in ly.getMonths()))


def ref(y):
    if y not in REF:
        REF[y] = snap(LunarYear(y))
    return REF[y]


KEPT = threading.local()


def year_view(x, y):
    return R({'year': x.getYear(), 'own': tuple((m.getYear(), m.getMonth(), lo.num(m.getFirstJulianDay()), m.getDayCount()) for m in x.getMonthsInYear()), 'alone': snap(x) == ref(y)})


def ask(q, keep=None):
    k = q[0]
    try:
        if k == 'nonsense':
            LunarYear.fromYear('x')
            return R({'raised': False})
        if k == 'year':
            x = LunarYear.fromYear(q[1])
            quiet(True)
            r = year_view(x, q[1])
            if keep is not None:
                keep.append((q, x))
        elif k == 'solar':
            x = co.mk(q[1], 43200).getLunar()
            quiet(True)
            r = R({'lunar': (x.getYear(), x.getMonth(), x.getDay())})
        else:
            x = LunarMonth.fromYm(q[1], q[2])
            quiet(True)
            r = R({'none': True}) if x is None else R({'label': (x.getYear(), x.getMonth()), 'days': x.getDayCount(), 'first': lo.num(x.getFirstJulianDay())})
        return r
    except Exception:   # noqa: BLE001
        return R({'raised': True})
    finally:
        quiet(False)


def quiet(v):
    sched.LOCAL.quiet = v


def rq(rng, ys, fails=0.0):
    r = rng.random()
    y = rng.choice(ys)
    if r < 0.6:
        q = ('year', y)
    elif r < 0.8:
        q = ('solar', api().DN(y, 1, 1) + rng.randrange(2, 363))
    elif r < 0.95:
        q = ('month', y, rng.choice((1, 2, 6, 12, -2, -4, -6, 11, -11, -12)))
    else:
        q = ('nonsense', 0)
    return q, (rng.choice((0, 1, 3, 10, 50, 200)) if rng.random() < fails else None)


def play(reqs, drive, bad, what, before=()):
    """one run on the real code; returns (history, points)"""
    a = api()
    keep = []
    ev = [{'op': 'start', 'res': R({'ok': True})}]
    for q in before:
        ask(q)
    for qs in reqs.values():
        for q, _ in qs:
            if q[0] == 'year':
                ref(q[1])
    s = sched.Sched(reqs, lambda q: ask(q, keep))
    s.start()
    drive(s)
    left = s.finish()
    ev += s.events
    for q, x in keep:
        ev.append({'op': 'later', 'q': q, 'res': year_view(x, q[1])})
    ev.append({'op': 'end', 'res': R({'waiting': left})})
    st = a.W0
    for e in ev:
        e = vlib.tup(e)
        e = R(e, res=R(e['res']))
        if not judge(lambda z: a.WExpect(st, z), e, e['res'], bad, what):
            bad[-1][1]['history'] = [{k: v for k, v in z.items() if k != 'res'} for z in ev[:ev.index(e) + 1] if z['op'] != 'later'][-20:] if e in ev else []
            break
        st = a.WApply(st, e)
    if not bad:      # the library still answers
        q = ('year', 2020)
        r = ask(q)
        e = {'op': 'later', 'q': q, 'res': r}
        if judge(lambda z: a.WExpect(st, z), e, r, bad, what + ', afterwards'):
            ev.append(e)
    return ev, s.points


def drive_plan(plan):
    """follow a schedule of the specification: each of its steps lets that thread run to its next visible event"""
    def d(s):
        for t, act, _ in plan:
            if t in s.enabled():
                s.resume(t)
    return d


def plan_job(plans):
    n, bad, kept = 0, [], []
    for plan in plans:
        reqs = {}
        for t, act, y in plan:
            if act == 'call':
                reqs.setdefault(t, []).append([('year', y), None])
            elif act == 'fail':
                reqs[t][-1][1] = 0
        reqs = {t: [tuple(q) for q in v] for t, v in reqs.items()}
        ev, _ = play(reqs, drive_plan(plan), bad, 'schedule of the specification')
        n += len(ev)
        kept.append(ev)
        if bad:
            break
    return {'n': n, 'bad': bad[:3], 'keep': kept[:2] if not bad else []}


def preempt_job(job):
    """thread 1 is stopped after k points, thread 2 asks in between (after j points back to 1)"""
    seed, ks = job
    n, bad, kept = 0, [], []
    rng = random.Random(seed)
    for k in ks:
        ys = rng.sample(YEARS, 3)
        y1, y2 = ys[0], rng.choice((ys[0], ys[1], ys[1]))
        fail = rng.choice((None, None, None, 0, 5))
        reqs = {1: [(('year', y1), fail)] + ([rq(rng, ys)] if rng.random() < 0.3 else []),
                2: [(('year', y2), rng.choice((None, None, None, 2)))] if rng.random() < 0.7 else [rq(rng, ys)]}
        if rng.random() < 0.3:
            reqs[3] = [rq(rng, ys)]
        j = rng.choice((10 ** 9, rng.randrange(1, 60), rng.randrange(1, 500), rng.randrange(1, 2500)))

        def drive(s):
            for t, b in ((1, k), (2, j), (1, rng.choice((10 ** 9, rng.randrange(1, 500)))), (3, rng.randrange(1, 400))):
                if b > 0 and t in s.enabled():
                    s.resume(t, b)
        ev, pts = play(reqs, drive, bad, 'preempted after %d points' % k, before=[('year', rng.choice(ys + [1999]))])
        n += len(ev)
        if rng.random() < 0.02:
            kept.append(ev)
        if bad:
            break
    return {'n': n, 'bad': bad[:3], 'keep': kept if not bad else []}


def random_job(job):
    seed, runs = job
    n, bad, kept = 0, [], []
    for i in range(runs):
        rng = random.Random(seed * 977 + i)
        ys = rng.sample(YEARS, rng.choice((1, 2, 3)))
        nt = rng.choice((1, 2, 2, 3, 3, 4))
        reqs = {t: [rq(rng, ys, 0.2) for _ in range(rng.randint(1, 3))] for t in range(1, nt + 1)}

        def drive(s):
            mean = rng.choice((3, 20, 100, 400))
            while len(s.done) < nt:
                e = s.enabled()
                if not e:
                    break
                s.resume(rng.choice(e), 1 + int(rng.expovariate(1.0 / mean)))
        ev, _ = play(reqs, drive, bad, 'random schedule')
        n += len(ev)
        if rng.random() < 0.05:
            kept.append(ev)
        if bad:
            break
    return {'n': n, 'bad': bad[:3], 'keep': kept if not bad else []}


def history_job(job):
    """one thread, many years in any order, failures included"""
    seed, length = job
    a = api()
    rng = random.Random(seed)
    ys = [lo.ryear(rng, 1, 9998) for _ in range(6)]
    n, bad = 0, []
    sched.LOCAL.id = 9
    for _ in range(length):
        q, fail = rq(rng, ys, 0.15)
        if rng.random() < 0.1:
            ys[rng.randrange(6)] = lo.ryear(rng, 1, 9998)
        sched.LOCAL.armed, sched.LOCAL.fired = fail, False
        r = ask(q)
        inj, sched.LOCAL.armed = sched.LOCAL.fired, None
        n += 1
        e = {'op': 'answer', 'q': q, 'injected': inj, 'res': r}
        if not judge(lambda z: a.Answer(q, inj), e, r, bad, 'history'):
            break
    return {'n': n, 'bad': bad}


def stress_job(job):
    """free-running threads (natural interleavings, shortest switch interval)"""
    seed, count = job
    a = api()
    n, bad, lock = [0], [], sched.RealLock()
    sys.setswitchinterval(1e-6)
    ys = random.Random(seed).sample(YEARS, 3)
    for y in ys:
        ref(y)

    def body(i):
        rng = random.Random(seed * 31 + i)
        for _ in range(count):
            q, _f = rq(rng, ys)
            r = ask(q)
            with lock:
                n[0] += 1
                judge(lambda z: a.Answer(q, False), {'op': 'answer', 'q': q, 'injected': False, 'res': r}, r, bad, 'free-running threads')
            if bad:
                return
    th = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(6)]
    for t in th:
        t.start()
    for t in th:
        t.join(60)
    if any(t.is_alive() for t in th):
        bad.append(('threads never finish', {'seed': seed}, ['hang']))
    return {'n': n[0], 'bad': bad[:3]}


MODEL = '''CONSTANTS Threads = {%s} Years = {2023, 2024} Requests = %d Parts = 2 ReleaseOnFailure = %s PublishWhole = %s Locked = %s
'''
GOOD = '''SPECIFICATION Spec
INVARIANTS OwnYear Exclusive HolderKnown CacheWhole
PROPERTY Answered
'''
SIM = '''SPECIFICATION SimSpec
INVARIANT Printed
CHECK_DEADLOCK FALSE
'''
BIND = ('W0', 'WExpect', 'WApply')


def plans(ctx, count):
    out = []
    r = vlib.run_tlc('CacheSim', MODEL % ('1, 2, 3', 2, 'TRUE', 'TRUE', 'TRUE') + SIM, workers=1, timeout=300, args=('-simulate', 'num=%d' % count, '-depth', '80', '-seed', str(ctx.seed)))
    for m in re.findall(r'"PLAN", "(.*?)">>\s*$', r.out, re.M):
        p = [(int(t), a, int(y)) for t, a, y in re.findall(r'<<(\d+), \\"(\w+)\\", (\d+)>>', m)]
        if p:
            out.append(p)
    if len(out) < count // 3:
        raise vlib.Machinery('no schedules from the specification\n' + r.tail())
    return out


def pad(h, length):
    """histories of one length, so that every chunk is one history"""
    h = h[:1] * max(0, length - len(h)) + h
    return h if len(h) == length else None


def run(ctx):
    a = api()
    co.api()
    q = not ctx.thorough
    ctx.model('YearCache', MODEL % ('1, 2, 3', 2 if q else 3, 'TRUE', 'TRUE', 'TRUE') + GOOD, workers=8, timeout=2500, heap='12g')
    for sw in (('FALSE', 'TRUE', 'TRUE'), ('TRUE', 'FALSE', 'TRUE'), ('TRUE', 'TRUE', 'FALSE')):
        r = vlib.run_tlc('YearCache', MODEL % (('1, 2', 2) + sw) + GOOD, workers=4)
        if r.ok or not r.violated:
            raise vlib.Machinery('the model accepts a broken cache design %r\n%s' % (sw, r.tail()))
    if not q:
        ctx.proof('YearCacheProof')
    ps = plans(ctx, 400 if q else 5000)
    sched.patch_failures(ShouXingUtil)
    for y in YEARS:
        ref(y)
    k = ctx.sweep(plan_job, [ps[i::64] for i in range(64)], 'specification schedules', hang=120)
    _, pts = play({1: [(('year', 2022), None)]}, lambda s: None, [], 'probe', before=[('year', 1999)])
    total = pts[1]
    ctx.notes['yield points of one request'] = total
    ks = list(range(0, 140)) + list(range(140, total - 100, 7 if q else 1)) + list(range(max(140, total - 100), total + 1))
    ks = ks * (1 if q else 6)
    k += ctx.sweep(preempt_job, [(ctx.seed * 50021 + i, ks[i::128]) for i in range(128)], 'preemption schedules', hang=120)
    k += ctx.sweep(random_job, [(ctx.seed * 40009 + i, 10 if q else 200) for i in range(96)], 'random schedules', hang=120)
    ctx.sweep(history_job, [(ctx.seed * 30011 + i, 120 if q else 3000) for i in range(32)], 'single-thread history calls', hang=120)
    ctx.sweep(stress_job, [(ctx.seed * 20011 + i, 40 if q else 400) for i in range(16)], 'free-running calls', hang=120)
    ctx.rng.shuffle(k)
    hs = [h for h in (pad(vlib.tup(x), 32) for x in k) if h][:60]
    ev = [e for h in hs for e in h]
    for e in [x for x in ev if x['op'] != 'start'][:8]:
        ctx.sample(e)
    ctx.trace('Trace_CacheWalk', ev, bind=BIND, chunk=32)
    vlib.self_test(ctx, 'Trace_CacheWalk', ev, 32, bind=BIND)
    ctx.assumptions += ['sequentially consistent interleavings at the granularity of Python bytecodes inside LunarYear and of lines elsewhere', 'failures are injected into the astronomy functions a build uses']
