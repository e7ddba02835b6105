"""Deterministic scheduler for real threads.

Threads are parked and released one at a time; the seeded policy (or an explicit
list of switches, for replay) decides at every intercepted point who runs next.
Points: every simulated I/O or codec call, and every source line (or bytecode)
of bloscpack executed by a scheduled thread.
"""
import random
import sys
import threading
import _thread

from . import env
from .world import World, StepBudget, HarnessError

_alloc = _thread.allocate_lock


class Policy(object):
    """mode 'rand': switch with probability p at each point.
    mode 'pct': random priorities with d change points.
    mode 'list': explicit switches [[step, thread], ...]."""

    def __init__(self, spec, n):
        self.spec = spec
        self.n = n
        self.mode = spec['mode']
        self.rng = random.Random(spec.get('seed', 0))
        if self.mode == 'pct':
            self.prio = list(range(n))
            self.rng.shuffle(self.prio)
            horizon = spec.get('horizon', 2000)
            self.changes = sorted(self.rng.randrange(1, horizon)
                                  for _ in range(spec.get('d', 3)))
            self.low = -1
        elif self.mode == 'list':
            self.sw = {int(s): int(t) for s, t in spec['switches']}

    def choose(self, step, cur, runnable, forced):
        """Next thread (may be cur unless forced)."""
        if self.mode == 'list':
            t = self.sw.get(step)
            if t is not None and t in runnable:
                return t
            if cur in runnable and not forced:
                return cur
            rest = [t for t in runnable if t != cur]
            return rest[0] if rest else runnable[0]
        if self.mode == 'pct':
            while self.changes and step >= self.changes[0]:
                self.changes.pop(0)
                self.prio[cur] = self.low
                self.low -= 1
            cand = [t for t in runnable if not (forced and t == cur)] or runnable
            return max(cand, key=lambda t: self.prio[t])
        if forced:
            cand = [t for t in runnable if t != cur] or runnable
            return self.rng.choice(cand)
        if len(runnable) > 1 and self.rng.random() < self.spec.get('p', 0.1):
            return self.rng.choice([t for t in runnable if t != cur])
        return cur


class Sched(object):
    def __init__(self, fns, policy_spec, opcodes=False, max_steps=1500000):
        self.fns = fns
        self.n = len(fns)
        self.policy = Policy(policy_spec, self.n)
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.step = 0
        self.switches = []
        self.sems = []
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.cur = None
        self.main_sem = _alloc()
        self.main_sem.acquire()
        self.ids = {}
        self.active = False
        self.fingerprint = 0
        self.where = {}
        self.on_switch = None

    # -- called by scheduled threads --------------------------------------
    def me(self):
        return self.ids.get(_thread.get_ident())

    def io_point(self, kind):
        m = self.me()
        if m is not None and self.active:
            self.point(m, kind)

    def point(self, m, what, forced=False):
        self.step += 1
        if self.step > self.max_steps:
            raise StepBudget('scheduler step budget')
        runnable = [t for t in range(self.n) if not self.done[t]]
        nxt = self.policy.choose(self.step, m, runnable, forced)
        if nxt != m:
            if self.on_switch is not None:
                self.on_switch(m, what)
            self.switches.append([self.step, nxt])
            self.fingerprint = self._fp(m, nxt, what)
            self.cur = nxt
            self.sems[nxt].release()
            self.sems[m].acquire()

    def _fp(self, m, nxt, what):
        import zlib
        return zlib.crc32(('%d>%d@%s' % (m, nxt, what)).encode(),
                          self.fingerprint)

    def _tracer(self, m):
        pkg = env.PKG
        ops = self.opcodes

        def local(frame, event, arg):
            if event == ('opcode' if ops else 'line') and self.active:
                self.point(m, (frame.f_code.co_name, frame.f_lasti))
            return local

        def glob(frame, event, arg):
            code = frame.f_code
            if not code.co_filename.startswith(pkg) or code.co_name == '<module>':
                return None
            if ops:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return glob

    def _body(self, m):
        self.sems[m].acquire()
        self.ids[_thread.get_ident()] = m
        sys.settrace(self._tracer(m))
        try:
            self.results[m] = self.fns[m]()
        except BaseException as e:      # harness-level
            self.results[m] = ('harness', e)
        finally:
            sys.settrace(None)
            self.done[m] = True
            self.step += 1
            runnable = [t for t in range(self.n) if not self.done[t]]
            if runnable:
                nxt = self.policy.choose(self.step, m, runnable, True)
                self.switches.append([self.step, nxt])
                self.cur = nxt
                self.sems[nxt].release()
            else:
                self.main_sem.release()

    def run(self, world):
        for _ in range(self.n):
            s = _alloc()
            s.acquire()
            self.sems.append(s)
        ths = []
        for m in range(self.n):
            t = threading.Thread(target=self._body, args=(m,), daemon=True)
            ths.append(t)
            t.start()
        world.sched = self
        self.active = True
        first = self.policy.choose(0, 0, list(range(self.n)), False)
        self.switches.append([0, first])
        self.cur = first
        self.sems[first].release()
        ok = self.main_sem.acquire(True, 120)
        self.active = False
        world.sched = None
        if not ok:
            raise HarnessError('scheduler watchdog: threads blocked for real')
        for t in ths:
            t.join(5)
        for r in self.results:
            if isinstance(r, tuple) and len(r) == 2 and r[0] == 'harness':
                raise r[1]
        return self.results


class SimLock(object):
    """Lock handed to bloscpack code; blocking becomes a scheduling point."""

    def __init__(self, real, reentrant):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        w = World.cur
        s = w.sched if w is not None else None
        m = s.me() if s is not None and s.active else None
        if m is None:
            return self._real.acquire(blocking, timeout)
        while True:
            if self._real.acquire(False):
                return True
            if not blocking:
                return False
            s.point(m, 'lock', forced=True)

    def release(self):
        self._real.release()

    def locked(self):
        return self._real.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def install_locks():
    r_lock, r_rlock = threading.Lock, threading.RLock

    def from_pkg():
        return sys._getframe(2).f_code.co_filename.startswith(env.PKG)

    def Lock():
        return SimLock(r_lock(), False) if from_pkg() else r_lock()

    def RLock():
        return SimLock(r_rlock(), True) if from_pkg() else r_rlock()
    threading.Lock = Lock
    threading.RLock = RLock
