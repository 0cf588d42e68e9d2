"""Shared machinery of the checks: TLC runs, trace validation, parallel sweeps, verdicts, evidence."""
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(HERE, 'spec')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import tla2py  # noqa: E402

TLCJAR = tla2py.JAR + ':' + tla2py.CM
NPROC = int(os.environ.get('VERIF_PROCS', '8'))


class Machinery(Exception):
    """The check itself failed (never a verdict about the code)."""


def js(v):
    if isinstance(v, (tuple, list)):
        return [js(x) for x in v]
    if isinstance(v, frozenset):
        return sorted((js(x) for x in v), key=str)
    if isinstance(v, dict):
        return {str(k): js(x) for k, x in v.items()}
    return v


def tup(v):
    """plain python -> spec value"""
    if isinstance(v, (list, tuple)):
        return tuple(tup(x) for x in v)
    if isinstance(v, dict):
        return tla2py.R((k, tup(x)) for k, x in v.items())
    return v


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r'(\d+) states generated, (\d+) distinct states', out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = 'Model checking completed. No error has been found.' in out or (rc == 0 and 'Error:' not in out)
        m = re.search(r'Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|Deadlock reached|is violated by the initial state', out)
        self.violated = m.group(0) if m else None

    def tail(self, n=40):
        lines = self.out.splitlines()
        i = next((i for i, x in enumerate(lines) if x.startswith('Error:')), len(lines))
        return '\n'.join(lines[i:i + 12] + ['...'] + lines[-n:])


def run_tlc(module, cfg, workers=4, env=None, timeout=600, args=(), heap='3g', cfgname=None):
    """cfg: text of a .cfg.  Runs TLC in spec/ with scratch metadir; returns TLCResult."""
    d = tempfile.mkdtemp(prefix='vtlc')
    try:
        cf = os.path.join(d, (cfgname or module) + '.cfg')
        with open(cf, 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['timeout', '-k', '5', str(timeout), 'java', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + d, '-Xmx' + heap, '-Xss64m', '-Dfile.encoding=UTF-8',
               '-DTLA-Library=' + SPEC, '-cp', TLCJAR, 'tlc2.TLC', '-config', cf, '-workers', str(workers),
               '-metadir', os.path.join(d, 'meta'), '-noTE', *args, module + '.tla']
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return TLCResult(p.stdout.decode('utf-8', 'replace'), p.returncode)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Ctx:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.t0 = time.time()
        self.level = level
        self.states = self.transitions = self.traces = self.events = 0
        self.evals = {}
        self.samples = []
        self.models = []
        self.viol = []
        self.known_hit = []
        self.assumptions = []
        self.notes = {}
        self.known = load_known(prop)
        self.deadline = self.t0 + (float(os.environ.get('VERIF_BUDGET', '3000' if self.thorough else '420')))

    # ------------------------------------------------------------ model checking
    def model(self, module, cfg, name=None, **kw):
        r = run_tlc(module, cfg, **kw)
        if not r.ok:
            raise Machinery('TLC on %s: the specification itself failed\n%s' % (module, r.tail()))
        if r.distinct < 1:
            raise Machinery('TLC on %s explored nothing\n%s' % (module, r.tail()))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({'module': module, 'name': name or module, 'distinct': r.distinct, 'generated': r.generated, 'depth': r.depth})
        return r

    def proof(self, module, timeout=600):
        """have TLAPS check the proofs of a module"""
        d = tempfile.mkdtemp(prefix='tlaps')
        try:
            r = subprocess.run(['tlapm', '--cache-dir', d, '--stretch', '5', '-I', SPEC, os.path.join(SPEC, 'proofs', module + '.tla')], cwd=d, capture_output=True, text=True, timeout=timeout)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        m = re.search(r'All (\d+) obligations proved', r.stdout + r.stderr)
        if not m or r.returncode:
            raise Machinery('TLAPS on %s\n%s' % (module, (r.stdout + r.stderr)[-2000:]))
        self.models.append({'module': module, 'name': 'TLAPS proof', 'obligations': int(m.group(1))})

    # ------------------------------------------------------------ verdicts
    def violation(self, what, event=None, clause=None):
        """Record a violation unless it is a listed known finding."""
        for k in self.known:
            if k['kind'] == 'finding' and match(k['match'], event or {}, clause):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.viol.append({'what': what, 'event': js(event), 'clause': js(clause)})

    def eval(self, kind, n=1):
        self.evals[kind] = self.evals.get(kind, 0) + n

    def sample(self, ev):
        if len(self.samples) < 12:
            self.samples.append(js(ev))

    # ------------------------------------------------------------ sweeps
    def sweep(self, fn, jobs, name, init=None, nproc=None, share=1.0, fresh=False, hang=240):
        """Run fn(job) -> dict(n=count, bad=[(what, event, clause)], keep=[events]) over all jobs in a process pool.
        fresh: every job gets a process of its own (the library's global state as imported).  Stops handing out jobs when the time budget is used up; what was covered is counted."""
        jobs = list(jobs)
        keep = []
        done = 0
        limit = min(self.deadline, time.time() + share * max(5.0, self.deadline - time.time()))
        if not jobs:
            return keep
        ctxm = mp.get_context('fork')
        t = time.time()
        with ctxm.Pool(nproc or NPROC, initializer=init, maxtasksperchild=1 if fresh else None) as pool:
            it = pool.imap_unordered(_Guard(fn, hang), jobs, chunksize=1)
            while True:
                try:
                    r = it.next(timeout=max(0.1, limit - time.time()))
                except StopIteration:
                    break
                except mp.TimeoutError:
                    self.notes[name + '_stopped_by_budget'] = '%d of %d jobs' % (done, len(jobs))
                    pool.terminate()
                    break
                done += 1
                if r.get('crash'):
                    pool.terminate()
                    raise Machinery(r['crash'])
                self.eval(name, r['n'])
                for b in r['bad']:
                    self.violation(*b)
                if len(keep) < 200000:
                    keep += r.get('keep', [])
                if len(self.viol) > 200:
                    pool.terminate()
                    break
        self.notes[name + '_s'] = round(time.time() - t, 1)
        return keep

    # ------------------------------------------------------------ trace validation
    def trace(self, module, events, constants='', bind=None, workers=4, expect_reject=False, chunk=2000, timeout=600, heap='4g', env=None):
        """Validate recorded events against spec module `module` (a Trace_* module) with TLC.
        Events are cut into chunks of `chunk`; every chunk must start in a state the spec can start from."""
        if not events:
            return True
        d = tempfile.mkdtemp(prefix='vtrace')
        try:
            p = os.path.join(d, 'trace.ndjson')
            with open(p, 'w', encoding='utf-8') as f:
                for e in events:
                    f.write(json.dumps(js(e), ensure_ascii=False) + '\n')
            if isinstance(bind, str):
                constants += 'CONSTANT FactsOf <- %s\n' % bind
            elif bind:
                constants += 'CONSTANTS InitialState <- %s ExpectOf <- %s ApplyTo <- %s\n' % bind
            cfg = 'SPECIFICATION TraceSpec\nINVARIANT TraceOk\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n' + constants
            e2 = {'TRACE': p, 'CHUNK': str(chunk)}
            e2.update(env or {})
            r = run_tlc(module, cfg, workers=workers, env=e2, timeout=timeout, heap=heap)
            if r.ok:
                n = -(-len(events) // chunk)
                if r.distinct != len(events) + n:
                    raise Machinery('trace %s: only %d states for %d events\n%s' % (module, r.distinct, len(events), r.tail()))
                if not expect_reject:
                    self.traces += n
                    self.events += len(events)
                    self.states += r.distinct
                    self.transitions += r.generated
                return True
            if r.violated and 'TraceOk' in r.violated:
                if not expect_reject:
                    m = re.findall(r'/\\ bad = (.*)', r.out)
                    l = re.findall(r'/\\ l = (\d+)', r.out)
                    i = int(l[-1]) - 2 if l else -1
                    self.violation('TLC rejects the recorded trace: %s' % (m[-1] if m else '?'), events[i] if 0 <= i < len(events) else None, m[-1] if m else None)
                return False
            raise Machinery('TLC on trace %s failed\n%s' % (module, r.tail(60)))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # ------------------------------------------------------------ end
    def finish(self):
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'trace_events': self.events,
                'evaluations': sum(self.evals.values()),
                'evaluations_by_kind': self.evals,
                'models': self.models,
                'notes': self.notes,
                'samples': self.samples or [{'note': 'none'}],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.viol),
        }
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        for k in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']))
        for k in self.known:
            if k['kind'] == 'finding' and k not in self.known_hit:
                print('note: listed finding not reproduced in this run: %s' % k['text'])
        if self.viol:
            rd = os.path.join(HERE, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s.json' % self.prop)
            with open(rp, 'w', encoding='utf-8') as f:
                json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'violations': self.viol[:50]}, f, ensure_ascii=False, indent=1)
            for v in self.viol[:5]:
                print('  %s' % json.dumps(v, ensure_ascii=False)[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('OK %s %s: %s evaluations, %d TLC states, %d trace events in %.1fs' % (
            self.prop, self.tier, sum(self.evals.values()), self.states, self.events, time.time() - self.t0))
        return 0


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


class _Guard:
    """A job takes seconds; one that is still running after `hang` seconds is stuck in the library."""

    def __init__(self, fn, hang):
        self.fn, self.hang = fn, hang

    def __call__(self, job):
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, self.hang)
            try:
                return self.fn(job)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Hang:
            return {'n': 0, 'bad': [('a call does not return', {'job': repr(job)[:300], 'where': traceback.format_exc()[-1500:]}, ['hang'])]}
        except (Machinery, MemoryError, OSError, KeyboardInterrupt, SystemExit):
            return {'n': 0, 'bad': [], 'crash': 'job %r\n%s' % (job, traceback.format_exc())}
        except BaseException as e:
            return {'n': 0, 'bad': [unexpected(e, job)]}


def unexpected(e, job=None):
    """The recorder copes with every answer the interface documents (and with exceptions of the calls it judges): an exception
    that gets here comes from a library call that may not raise, or from an answer that is not of the documented kind."""
    where = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + os.sep)]
    return ('the library raises' if where else 'an answer is not of the documented kind',
            {'job': repr(job)[:300], 'raised': '%s: %s' % (type(e).__name__, e), 'where': ''.join(traceback.format_exception(e))[-1500:]}, ['raised'])


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p, encoding='utf-8') as f:
        return [k for k in json.load(f) if k['property'] == prop]


def match(m, event, clause):
    """m: dict path -> required value (event fields); key '$clause' the clause set must be within"""
    for k, v in m.items():
        if k == '$clause':
            c = set(js(clause) or []) if not isinstance(clause, str) else {clause}
            if not c or not c <= set(v):
                return False
            continue
        x = event
        for part in k.split('.'):
            x = x.get(part) if isinstance(x, dict) else None
        if isinstance(v, dict) and 'range' in v:
            if not (isinstance(x, int) and v['range'][0] <= x <= v['range'][1]):
                return False
        elif isinstance(v, dict) and 'in' in v:
            if js(x) not in v['in']:
                return False
        elif js(x) != v:
            return False
    return True


def call(f, *a):
    """Result of a call, with any exception turned into a value the specification can judge."""
    try:
        return f(*a)
    except Exception as e:   # noqa: BLE001 - the verdict is the specification's
        return 'raise:' + type(e).__name__


def memo_years():
    """Sweeps revisit years in any order; the one-year cache of the library would rebuild each time.
    Property C15 checks the cache itself without this."""
    from lunar_python import LunarYear
    orig = LunarYear.fromYear
    cache = {}

    def from_year(y):
        r = cache.get(y)
        if r is None:
            r = orig(y)
            if len(cache) > 400:
                cache.clear()
            cache[y] = r
        return r
    LunarYear.fromYear = staticmethod(from_year)


def main(prop, body, level='model_checking'):
    ctx = Ctx(prop, level)
    try:
        body(ctx)
        rc = ctx.finish()
    except Exception as e:   # noqa: BLE001
        if not isinstance(e, (Machinery, MemoryError, OSError)):
            ctx.violation(*unexpected(e))
        else:
            print('MACHINERY FAILURE %s: %s' % (prop, e))
        if ctx.viol:
            rc = ctx.finish()
        else:
            rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def judge(spec_fn, ev, res, bad, prop_what):
    """Compare observed record with the specification's expected record."""
    exp = spec_fn(ev)
    if exp != res:
        diff = sorted(k for k in set(exp) | set(res) if exp.get(k, '<none>') != res.get(k, '<none>'))
        e = dict(ev)
        e['res'] = {k: res.get(k, '<none>') for k in diff}
        e['expected'] = {k: exp.get(k, '<none>') for k in diff}
        bad.append(('%s: %s' % (prop_what, ', '.join(diff)), e, diff))
        return False
    return True


def self_test(ctx, module, events, chunk, **kw):
    """the binding is live: a corrupted record must be rejected by TLC"""
    if not events:
        return
    import copy
    ev = copy.deepcopy(events[:min(len(events), chunk)])
    for e in reversed(ev):
        r = dict(e['res'])
        k = sorted(r)[0]
        v = r[k]
        if isinstance(v, bool):
            r[k] = not v
        elif isinstance(v, int):
            r[k] = v + 1
        elif isinstance(v, str):
            r[k] = v + '?'
        elif isinstance(v, (tuple, list)) and v and isinstance(v[0], int):
            r[k] = (v[0] + 1,) + tuple(v[1:])
        else:
            continue
        e['res'] = r
        break
    else:
        return
    if ctx.trace(module, ev, expect_reject=True, chunk=chunk, **kw):
        raise Machinery('corrupted trace was accepted by ' + module)
