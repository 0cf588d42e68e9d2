"""A deterministic scheduler for threads that run library code.

Locks the library creates are replaced (before the library is imported) by cooperative ones; a trace function turns
opcodes and lines of the library's calendar modules into yield points.  One thread runs at a time; the controller
decides after how many points another one goes on.  Only what callers see is recorded."""
import os
import sys
import threading
import types

RealLock, RealRLock = threading.Lock, threading.RLock
ACTIVE = None          # the scheduler in charge, if any
LOCAL = threading.local()


class Abort(BaseException):
    pass


class Stuck(Exception):
    pass


class Injected(Exception):
    pass


def me():
    return getattr(LOCAL, 'id', None)


class CoopLock:
    def __init__(self, reentrant=False):
        self.owner, self.count, self.reentrant = None, 0, reentrant
        self.real = RealRLock() if reentrant else RealLock()

    def acquire(self, blocking=True, timeout=-1):
        s, t = ACTIVE, me()
        if s is None or t is None:
            if self.owner is not None:
                raise Stuck('a lock is still held by a thread that is gone')
            if not blocking:
                return self.real.acquire(False)
            if not self.real.acquire(True, 10 if timeout < 0 else timeout):
                if timeout >= 0:
                    return False
                raise Stuck('a lock is never given back')
            return True
        s.point(t, 'want')
        if self.reentrant and self.owner == t:
            self.count += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            s.block(t, self)
        self.owner, self.count = t, 1
        s.point(t, 'acquire')
        return True

    def release(self):
        s, t = ACTIVE, me()
        if s is None or t is None:
            self.real.release()
            return
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
        s.point(t, 'release')

    def locked(self):
        return self.owner is not None or (not self.reentrant and self.real.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()


def ours():
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        if os.sep + 'lunar_python' + os.sep in f.f_code.co_filename:
            return True
        f = f.f_back
    return False


def patch():
    threading.Lock = lambda: CoopLock() if ours() else RealLock()
    threading.RLock = lambda: CoopLock(True) if ours() else RealRLock()


def patch_failures(cls):
    """every public function of the astronomy class may be told to fail (per thread, at its n-th use)"""
    for k, v in list(vars(cls).items()):
        f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else None
        if k.startswith('_') or not isinstance(f, types.FunctionType) or isinstance(v, classmethod):
            continue

        def w(*a, _f=f, **kw):
            n = getattr(LOCAL, 'armed', None)
            if n is not None and me() is not None:
                LOCAL.armed = n - 1
                if n <= 0:
                    LOCAL.armed = None
                    LOCAL.fired = True
                    raise Injected('injected')
            return _f(*a, **kw)
        setattr(cls, k, staticmethod(w))


FINE = ('LunarYear.py',)
COARSE = ('Lunar.py', 'LunarMonth.py')


class Sched:
    def __init__(self, requests, ask):
        """requests: {thread: [(q, fail_at or None), ...]}; ask(q) -> observed record"""
        self.req = {t: list(q) for t, q in requests.items()}
        self.ask = ask
        self.go = {t: threading.Semaphore(0) for t in requests}
        self.back = threading.Semaphore(0)
        self.blocked, self.done = {}, set()
        self.budget, self.visible = 0, False
        self.points = {t: 0 for t in requests}
        self.events = []
        self.abort = False
        self.hung = set()

    # ---- in the threads
    def point(self, t, kind):
        if getattr(LOCAL, 'quiet', False):
            return
        self.points[t] += 1
        if self.visible:
            if kind not in ('acquire', 'release', 'begin', 'built', 'answer', 'called'):
                return
        else:
            self.budget -= 1
            if self.budget > 0:
                return
        self.give(t)

    def give(self, t):
        self.back.release()
        self.go[t].acquire()
        if self.abort:
            raise Abort()

    def block(self, t, lock):
        self.blocked[t] = lock
        self.give(t)
        self.blocked.pop(t, None)

    def trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if os.sep + 'lunar_python' + os.sep not in fn:
            return None
        base = os.path.basename(fn)
        if base in FINE:
            if len(frame.f_code.co_code) < 500:
                frame.f_trace_opcodes = True
            if frame.f_code.co_name == '__init__':
                self.point(LOCAL.id, 'begin')
                return self.local_init
            return self.local
        return self.local if base in COARSE else None

    def local(self, frame, event, arg):
        if event in ('line', 'opcode'):
            self.point(LOCAL.id, event)
        return self.local

    def local_init(self, frame, event, arg):
        if event in ('line', 'opcode'):
            self.point(LOCAL.id, event)
        elif event == 'return':
            self.point(LOCAL.id, 'built')
        return self.local_init

    def run_thread(self, t):
        LOCAL.id, LOCAL.quiet, LOCAL.armed, LOCAL.fired = t, False, None, False
        self.go[t].acquire()
        try:
            if self.abort:
                return
            sys.settrace(self.trace)
            while self.req[t]:
                q, fail = self.req[t].pop(0)
                self.events.append({'op': 'call', 't': t, 'q': q, 'res': {'ok': True}})
                LOCAL.armed, LOCAL.fired = fail, False
                self.point(t, 'called')
                res = self.ask(q)
                LOCAL.armed = None
                self.events.append({'op': 'answer', 't': t, 'injected': LOCAL.fired, 'q': q, 'res': res})
                self.point(t, 'answer')
        except Abort:
            pass
        finally:
            sys.settrace(None)
            self.done.add(t)
            self.back.release()

    # ---- controller
    def enabled(self):
        return [t for t in self.req if t not in self.done and t not in self.hung and not (t in self.blocked and self.blocked[t].owner is not None)]

    def resume(self, t, budget=None):
        """let t run: budget points, or (None) until its next visible event"""
        self.visible, self.budget = budget is None, budget or 0
        self.go[t].release()
        if not self.back.acquire(timeout=20):
            self.hung.add(t)

    def start(self):
        global ACTIVE
        ACTIVE = self
        self.th = {t: threading.Thread(target=self.run_thread, args=(t,), daemon=True) for t in self.req}
        for x in self.th.values():
            x.start()

    def finish(self, rng=None):
        """run everybody to the end; returns the threads left waiting"""
        global ACTIVE
        while True:
            e = self.enabled()
            if not e:
                break
            self.resume(e[0] if rng is None else rng.choice(e), 10 ** 9)
        left = [t for t in self.req if t not in self.done]
        self.abort = True
        for t in left:
            if t not in self.hung:
                self.go[t].release()
                self.th[t].join(5)
        for t in self.req:
            if t not in left:
                self.th[t].join(5)
        ACTIVE = None
        return tuple(sorted(left))
