"""Locks made by the code under test become cooperative under the simulator."""

import sys
import threading

import _thread

REAL_LOCK = _thread.allocate_lock
REAL_RLOCK = threading.RLock

PREFIX = None
current = None  # set by vsim.threads: the running simulation, or None


def _from_target(depth=8):
    f = sys._getframe(2)
    while f is not None and depth:
        if f.f_code.co_filename.startswith(PREFIX):
            return True
        f = f.f_back
        depth -= 1
    return False


class Orphaned(BaseException):
    """In a forked process: a lock whose holder was left behind in the parent."""

    def __init__(self, own):
        super().__init__("a lock is held by a thread that does not exist in this process")
        self.own = own


alone = False  # set in a forked child that has no other threads


class SimLock:
    """A lock (optionally re-entrant) whose waiting is the simulator's business."""

    reentrant = False

    def __init__(self, own=False):
        self._real = REAL_LOCK()
        self._owner = None
        self._count = 0
        self._own = own  # made by the code under test itself

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        sim = current
        mine = sim is not None and sim.mine()
        if mine:
            if self._own:
                sim.at_lock("acquire")
            while not self._real.acquire(False):
                if not blocking:
                    return False
                if not sim.block(self, timeout):
                    return False
        else:
            if alone and blocking and timeout == -1 and threading.active_count() == 1:
                if not self._real.acquire(False):
                    raise Orphaned(self._own)
            elif not self._real.acquire(blocking, timeout):
                return False
        self._owner = me
        self._count = 1
        if mine and self._own:
            sim.held[self] = sim.me()
            sim.at_lock("acquired")
        return True

    def release(self):
        if self.reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._real.release()
        sim = current
        if sim is not None:
            sim.held.pop(self, None)
            sim.wake(self)
            if self._own and sim.mine():
                sim.at_lock("released")

    def locked(self):
        return self._real.locked()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c, self._count, self._owner = self._count, 0, None
        self._real.release()
        sim = current
        if sim is not None:
            sim.wake(self)
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c

    def _at_fork_reinit(self):
        self.__init__(self._own)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle a lock")


class SimRLock(SimLock):
    reentrant = True


def install():
    """Before geocat.comp is imported."""
    global PREFIX
    if PREFIX is not None:
        return
    from .boot import REPO
    import os

    PREFIX = os.path.abspath(REPO) + os.sep + "geocat" + os.sep

    def own():
        f = sys._getframe(2)
        while f is not None and f.f_code.co_filename == threading.__file__:
            f = f.f_back
        return f is not None and f.f_code.co_filename.startswith(PREFIX)

    def Lock():
        return SimLock(own()) if _from_target() else REAL_LOCK()

    def RLock():
        return SimRLock(own()) if _from_target() else REAL_RLOCK()

    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = Lock
    _thread.allocate_lock = Lock


def adopt():
    """Module-level locks of the other libraries (dask's tokenize lock, xarray's
    file locks) become cooperative too: a simulated thread can be parked while it
    holds one."""
    real = (type(REAL_LOCK()), type(REAL_RLOCK()))
    seen = {}
    for name, mod in list(sys.modules.items()):
        if mod is None or name.split(".")[0] not in THIRD:
            continue
        for k, v in list(getattr(mod, "__dict__", {}).items()):
            if type(v) in real:
                if id(v) not in seen:
                    seen[id(v)] = (v, SimRLock() if type(v) is real[1] else SimLock())
                setattr(mod, k, seen[id(v)][1])
            elif type(v).__name__ in ("SerializableLock", "_CompilerLock"):
                for a in ("lock", "_lock"):
                    l = getattr(v, a, None)
                    if type(l) in real:
                        setattr(v, a, SimRLock() if type(l) is real[1] else SimLock())


THIRD = (
    "dask", "xarray", "pandas", "metpy", "pint", "numpy", "scipy", "numba", "eofs",
    "xskillscore", "cf_xarray", "uxarray", "cftime", "cloudpickle", "eccodes",
)
