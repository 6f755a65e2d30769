"""Caller threads and dask worker threads as parked real threads.

Exactly one simulated thread runs at any time.  It can lose the processor only
at a source-line event of the code under test, at a cooperative lock, or when it
waits for a simulated condition; who continues is the run's choice.
"""

import threading
import time

import _thread

from . import locks, trace
from .kernel import Inconclusive, Violation

WALL = 150.0


class Killed(BaseException):
    pass


class T:
    def __init__(self, sim, tid, fn):
        self.sim, self.tid, self.fn = sim, tid, fn
        self.go = locks.REAL_LOCK()
        self.go.acquire()
        self.state = "ready"  # ready running blocked waiting paused done
        self.steps = 0
        self.wait_for = None
        self.kind = None
        self.value = None
        self.ident = None
        self.daemon_worker = False
        self.paused_prio = 0
        self.occ = {}
        self.parent = None

    def under(self, other):
        t = self
        while t is not None:
            if t is other:
                return True
            t = t.parent
        return False


def _foreign_regions():
    """`warnings.catch_warnings` used by other libraries (xarray, numpy, ...).

    Filters are process-wide, so two such regions that overlap in two threads
    lose or leave filters; that is theirs, not the code under test's.  A thread
    inside one (and the workers it waits for) therefore goes on until it leaves."""
    import sys
    import warnings

    cls = warnings.catch_warnings
    enter, leave = cls.__enter__, cls.__exit__
    if getattr(enter, "vsim", False):
        return

    def mine(f):
        return f.f_code.co_filename.startswith(locks.PREFIX)

    def __enter__(self):
        sim = locks.current
        if sim is not None and sim.mine() and not mine(sys._getframe(1)):
            sim.before_region()
            sim.regions.append((sim.me(), self))
        return enter(self)

    def __exit__(self, *a):
        sim = locks.current
        if sim is not None and sim.regions:
            sim.regions[:] = [r for r in sim.regions if r[1] is not self]
        return leave(self, *a)

    __enter__.vsim = True
    cls.__enter__, cls.__exit__ = __enter__, __exit__


class Sim:
    """One multi-threaded run.

    policy: ("pause", {tid: [(site, occurrence), ...]}) parks a thread at given
            line events until no other thread can run;
            ("random", p) gives the processor away at a line event with
            probability p;  ("serial",) never preempts.
    """

    def __init__(self, ctx, policy=("serial",), max_steps=2_000_000, watch=None):
        self.ctx = ctx
        self.policy = policy
        self.live = []
        self.nthreads = 0
        self.by_ident = {}
        self.ctl = locks.REAL_LOCK()
        self.ctl.acquire()
        self.cur = None
        self.total = 0
        self.max_steps = max_steps
        self.switches = 0
        self.preempts = 0
        self.contended = 0
        self.stop = False
        self.watch = watch  # called at switches, in the controller
        self.inject = {}  # tid -> trace.Injector
        self.error = None
        self.regions = []
        self.held = {}  # locks of the code under test -> holder
        self.pauses = {}
        if policy[0] == "pause":
            self.pauses = {
                int(k): {(s, int(o)) for s, o in v} for k, v in policy[1].items()
            }
        self.p = policy[1] if policy[0] == "random" else 0.0

    # ---- inside simulated threads
    def mine(self):
        return _thread.get_ident() in self.by_ident and not self.stop

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def on_line(self, code, line):
        t = self.by_ident.get(_thread.get_ident())
        if t is None:
            return
        if self.stop:
            raise Killed()
        t.steps += 1
        self.total += 1
        if self.total > self.max_steps:
            self.error = Violation(
                "no-progress", f"more than {self.max_steps} source lines without finishing"
            )
            raise Killed()
        inj = self.inject.get(t.tid)
        if inj is not None:
            inj(code, line)
        ps = self.pauses.get(t.tid)
        if ps:
            s = trace.site(code, line)
            k = t.occ.get(s, 0)
            t.occ[s] = k + 1
            if (s, k) in ps:
                self.preempts += 1
                self.ctx.sched("pause", t.tid, s, k)
                t.state = "paused"
                self.switches += 1
                t.paused_prio = self.switches
                self._yield(t)
        elif self.p and self.ctx.flip(self.p, "preempt"):
            self.preempts += 1
            self.ctx.sched("preempt", t.tid, trace.site(code, line))
            t.state = "ready"
            self._yield(t)

    def before_region(self):
        """A thread that holds a lock of the code under test goes on until it has
        released it, before another one enters a region of another library (it
        would have to be let in when that one needs the lock)."""
        t = self.me()
        for _ in range(100):
            if t is None or all(h is t or h.under(t) or t.under(h) or h.state in ("blocked", "waiting", "done") for h in self.held.values()):
                return
            t.state = "paused"
            self.switches += 1
            t.paused_prio = self.switches
            self._yield(t)

    def at_lock(self, what):
        """Around the operations on a lock of the code under test, the processor
        can be lost too (two of them can share a source line)."""
        t = self.me()
        if t is None or self.policy[0] == "serial" or not self.ctx.flip(0.35, "at-lock"):
            return
        self.preempts += 1
        self.ctx.sched("at-lock", t.tid, what)
        if self.policy[0] == "pause":
            t.state = "paused"
            self.switches += 1
            t.paused_prio = self.switches
        else:
            t.state = "ready"
        self._yield(t)

    def _yield(self, t):
        """Hand the processor to the controller and wait for it to come back."""
        self.ctl.release()
        t.go.acquire()
        if self.stop:
            raise Killed()
        t.state = "running"

    def block(self, lock, timeout=-1):
        """Wait for a cooperative lock; True to try again, False on time-out."""
        t = self.me()
        self.contended += 1
        self.ctx.sched("block", t.tid)
        if timeout is not None and timeout > 0:
            # let everybody else run first; then the time-out fires
            t.state = "paused"
            self.switches += 1
            t.paused_prio = self.switches
            self._yield(t)
            return not lock._real.locked()
        t.state, t.wait_for = "blocked", lock
        self._yield(t)
        t.wait_for = None
        return True

    def wake(self, lock):
        for t in self.live:
            if t.state == "blocked" and t.wait_for is lock:
                t.state = "ready"

    def wait(self, pred):
        """Park the calling thread until pred() holds."""
        t = self.me()
        while not pred():
            t.state, t.wait_for = "waiting", pred
            self._yield(t)
        t.wait_for = None

    # ---- controller
    def spawn(self, fn, worker=False):
        t = T(self, self.nthreads, fn)
        t.daemon_worker = worker
        t.parent = self.me()
        self.nthreads += 1
        self.live.append(t)

        def body():
            t.ident = _thread.get_ident()
            t.go.acquire()
            self.by_ident[t.ident] = t
            try:
                if self.stop:
                    raise Killed()
                t.state = "running"
                t.kind, t.value = "ok", t.fn()
            except Killed:
                t.kind = "killed"
            except BaseException as e:
                t.kind, t.value = "err", e
            finally:
                t.state = "done"
                self.by_ident.pop(t.ident, None)
                self.ctl.release()

        th = threading.Thread(target=body, daemon=True, name=f"vsim-{t.tid}")
        t.thread = th
        th.start()
        return t

    def run(self, drain=False):
        """Run all spawned threads to completion (drain: the workers too)."""
        locks.current = self
        with trace.handling(self.on_line):
            try:
                while True:
                    live = self.live = [t for t in self.live if t.state != "done"]
                    if not (live if drain else [t for t in live if not t.daemon_worker]):
                        break
                    ready = [
                        t for t in live
                        if t.state == "ready"
                        or (t.state == "waiting" and t.wait_for())
                    ]
                    if self.regions:
                        owner = self.regions[-1][0]
                        own = [t for t in ready if t.under(owner)]
                        if not own:
                            own = [t for t in live if t.state == "paused" and t.under(owner)]
                            own = [min(own, key=lambda t: t.paused_prio)] if own else []
                        ready = own or ready
                    if not ready:
                        paused = [t for t in live if t.state == "paused"]
                        if paused:
                            # the longest-paused thread continues
                            ready = [min(paused, key=lambda t: t.paused_prio)]
                    if not ready and self._foreign_help():
                        continue
                    if not ready:
                        who = ", ".join(f"thread {t.tid} {t.state}" for t in live)
                        raise Violation("deadlock", f"no thread can run: {who}")
                    i = self.ctx.choose(len(ready), "thread") if len(ready) > 1 else 0
                    t = ready[i]
                    if len(ready) > 1:
                        self.ctx.sched("switch", t.tid)
                    if self.watch:
                        self.watch(self)
                    self.cur = t
                    t.state = "running"
                    t.go.release()
                    if not self.ctl.acquire(timeout=WALL):
                        raise Inconclusive("a thread blocked outside the simulator's control")
                    if self.error:
                        raise self.error
            finally:
                self.shutdown()
        locks.current = None

    def _foreign_help(self):
        """A thread the library started itself may be what the others wait for."""
        mine = {t.thread for t in self.live} | {threading.main_thread(), threading.current_thread()}
        for _ in range(400):
            if all(t in mine for t in threading.enumerate()):
                return False
            time.sleep(0.05)
            if any(t.state == "ready" or (t.state == "blocked" and not t.wait_for._real.locked()) for t in self.live):
                for t in self.live:
                    if t.state == "blocked" and not t.wait_for._real.locked():
                        t.state = "ready"
                return True
        return False

    def shutdown(self):
        self.stop = True
        for t in self.live:
            if t.state != "done":
                # each killed thread unwinds alone
                try:
                    t.go.release()
                except RuntimeError:
                    continue
                self.ctl.acquire(timeout=2.0)
        locks.current = None
