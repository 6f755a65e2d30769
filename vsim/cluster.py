"""A simulated dask cluster whose workers are real pristine processes.

Tasks are serialised, shipped to worker processes that were forked before the
call was made, run there on read-only inputs, and their results stay on the
worker (with copies on others that fetched them) until the worker crashes.  The
discrete-event loop decides assignment, durations, duplicates, lost and late
messages, crashes and restarts; everything else is real code.
"""

import os
import pickle
import select
import signal
import struct
import time

from dask._task_spec import Alias, DataNode
from dask.core import flatten

from .daskexec import canonical, graph_of, nested_get
from .kernel import Inconclusive, Violation


def _read(fd, n, end):
    buf = bytearray()
    while len(buf) < n:
        left = end - time.monotonic()
        if left <= 0:
            raise Inconclusive("worker process did not answer")
        if not select.select([fd], [], [], left)[0]:
            continue
        c = os.read(fd, min(1 << 20, n - len(buf)))
        if not c:
            raise Inconclusive("worker process died by itself")
        buf += c
    return bytes(buf)


class Worker:
    """A process forked from the run before it built or called anything."""

    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b)
                os.close(c)
                serve(a, d)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c
        self.tasks = 0

    def ask(self, blob, timeout=40.0):
        end = time.monotonic() + timeout
        b = struct.pack("<Q", len(blob)) + blob
        mv = memoryview(b)
        while mv:
            n = os.write(self.w, mv[: 1 << 20])
            mv = mv[n:]
        self.tasks += 1
        n = struct.unpack("<Q", _read(self.r, 8, end))[0]
        return pickle.loads(_read(self.r, n, end))

    def kill(self):
        if self.pid:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            os.close(self.w)
            os.close(self.r)
            self.pid = 0


def freeze(x):
    """Make every numpy array of a task input read-only (as deserialised buffers are)."""
    import numpy as np

    if isinstance(x, np.ndarray):
        try:
            x.flags.writeable = False
        except ValueError:
            pass
    elif isinstance(x, dict):
        for v in x.values():
            freeze(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            freeze(v)
    else:
        xr = __import__("xarray")
        if isinstance(x, xr.Variable):
            if isinstance(x._data, np.ndarray):
                freeze(x._data)
        elif isinstance(x, xr.DataArray):
            freeze(x.variable)
            for c in x.coords.values():
                freeze(c.variable)
        elif isinstance(x, xr.Dataset):
            for v in x.variables.values():
                freeze(v)
    return x


def tdigest(x):
    """Digest of a task's input or output, tolerant of arbitrary types."""
    from . import compare

    try:
        return compare.digest(x)
    except Exception:
        return None


def serve(rfd, wfd):
    from . import compare

    end = float("inf")
    while True:
        try:
            n = struct.unpack("<Q", _read(rfd, 8, time.monotonic() + 3600))[0]
        except Inconclusive:
            return
        blob = _read(rfd, n, time.monotonic() + 60)
        try:
            node_b, deps_b, twice, memory = pickle.loads(blob)
            deps = {k: pickle.loads(v) for k, v in deps_b.items()}
            if memory == "readonly":
                for v in deps.values():
                    freeze(v)
            before = {k: tdigest(v) for k, v in deps.items()}
            node = pickle.loads(node_b)
            res = node(dict(deps))
            out = {"res": _dumps(res, memory), "digest": tdigest(res), "changed": None, "differs": False}
            if before != {k: tdigest(v) for k, v in deps.items()}:
                out["changed"] = str([k for k in deps if before[k] != tdigest(deps[k])][0])
            if twice:
                res2 = node(dict(deps))
                if tdigest(res2) != out["digest"]:
                    out["differs"] = True
        except BaseException as e:
            try:
                eb = _dumps(e)
                pickle.loads(eb)
            except Exception:
                eb = _dumps(RuntimeError(f"{type(e).__name__}: {e}"))
            out = {"err": eb, "text": f"{type(e).__name__}: {e}"}
        b = pickle.dumps(out)
        b = struct.pack("<Q", len(b)) + b
        mv = memoryview(b)
        while mv:
            k = os.write(wfd, mv[: 1 << 20])
            mv = mv[k:]


def _dumps(x, memory=None):
    """Serialised form; "owned": arrays own their writable memory when they are
    read back, otherwise they are views of the message (as with out-of-band buffers)."""
    import cloudpickle

    return cloudpickle.dumps(x, protocol=4 if memory == "owned" else None)


class Cluster:
    """Scheduler of a simulated cluster; call signature of a dask `get`.

    faults: {"crash": p, "lose": p, "dup": p, "late": p, "flaky": p} per task,
    at most `budget` of them in a run, so that progress is always due."""

    def __init__(self, ctx, size=2, spares=4, faults=None, budget=6, memory="readonly", twice=0.2):
        self.ctx = ctx
        self.size = size
        self.pool = [Worker() for _ in range(size + spares)]
        self.alive = {}
        self.faults = faults or {}
        self.budget = budget
        self.memory, self.twice = memory, twice
        self.tasks = self.computes = self.reexec = 0
        self.seen = {}
        for _ in range(size):
            self.start()

    def start(self):
        n = len(self.alive)
        wid = max(self.alive, default=-1) + 1
        if self.pool:
            self.alive[wid] = self.pool.pop()
            return wid
        return None

    def close(self):
        for w in list(self.alive.values()) + self.pool:
            w.kill()

    def fault(self, kind):
        if self.budget <= 0:
            return False
        if self.ctx.flip(self.faults.get(kind, 0), f"fault-{kind}"):
            if kind == "crash" and not self.pool:
                return False
            self.budget -= 1
            self.ctx.tally(f"fault_{kind}")
            return True
        return False

    def __call__(self, dsk, keys, **kw):
        ctx = self.ctx
        self.computes += 1
        dsk = graph_of(dsk)
        outs = list(flatten([keys])) if isinstance(keys, list) else [keys]
        names = canonical(dsk, outs)
        try:
            nodes = {k: _dumps(dsk[k], self.memory) for k in names if not isinstance(dsk[k], (Alias, DataNode))}
        except Exception as e:
            raise Violation("task-not-serialisable", f"{type(e).__name__}: {e}")
        data = {}  # key -> (blob, holders) ; local data nodes live with the client
        running = {}  # (key, attempt) -> worker
        busy = set()
        attempts = {}
        total = len(names)
        steps = 0
        limit = 60 * (total + 20)
        ctx.event("graph", self.computes, total)

        dependents = {}
        for k in names:
            for d in dsk[k].dependencies:
                if d in dsk:
                    dependents.setdefault(d, []).append(k)
        st = {"stale": True, "need": set(), "ready": []}

        def have(k):
            return k in data and (data[k][1] is None or data[k][1])

        def value_ready(k):
            return all(have(d) for d in dsk[k].dependencies if d in dsk)

        def refresh():
            need, stack = set(), [k for k in outs if not have(k)]
            while stack:
                k = stack.pop()
                if k in need:
                    continue
                need.add(k)
                stack.extend(d for d in dsk[k].dependencies if d in dsk and not have(d))
            st["need"] = need
            st["ready"] = sorted(
                (k for k in need if value_ready(k) and not any(r[0] == k for r in running)), key=names.__getitem__
            )
            st["stale"] = False

        def finished(k):
            st["need"].discard(k)
            new = [
                e for e in dependents.get(k, ())
                if e in st["need"] and e not in st["ready"] and value_ready(e) and not any(r[0] == e for r in running)
            ]
            st["ready"].extend(sorted(set(new), key=names.__getitem__))

        while True:
            steps += 1
            if steps > limit:
                raise Violation("no-progress", f"{total} tasks not finished after {steps} scheduler steps")
            if st["stale"]:
                refresh()
            if not st["need"]:
                break
            ready = st["ready"]
            moved = False
            for k in list(ready):
                n = dsk[k]
                if isinstance(n, DataNode):
                    data[k] = (_dumps(n(), self.memory), None)
                elif isinstance(n, Alias):
                    t = list(n.dependencies)[0]
                    data[k] = (data[t][0], data[t][1])
                else:
                    continue
                ready.remove(k)
                finished(k)
                moved = True
            if moved:
                continue
            free = [w for w in sorted(self.alive) if w not in busy]
            if ready and free:
                k = ready.pop(ctx.choose(len(ready), "ready"))
                w = free[ctx.choose(len(free), "worker")]
                self.send(k, w, dsk, nodes, data, names, running, busy, attempts)
                if len(free) > 1 and self.fault("dup"):
                    w2 = [x for x in free if x != w][0]
                    self.send(k, w2, dsk, nodes, data, names, running, busy, attempts)
                continue
            if not ctx.queue:
                raise Violation("stuck", f"{len(st['need'])} tasks missing, none can run")
            kind, p = ctx.next_event()
            if kind == "done":
                key, att, w, out = p
                if running.pop((key, att), None) is None:
                    continue
                busy.discard(w)
                if w not in self.alive:
                    continue
                if "err" in out:
                    raise pickle.loads(out["err"])
                self.check_again(names[key], out)
                ctx.event("done", names[key], w)
                old = data.get(key)
                data[key] = (out["res"], (old[1] if old and old[1] else set()) | {w})
                finished(key)
                if self.fault("crash"):
                    # the worker dies with what it holds
                    v = sorted(self.alive)[ctx.choose(len(self.alive), "victim")]
                    self.crash(v, data, running, busy)
                    st["stale"] = True
            elif kind == "lost":
                key, att, w = p
                if running.pop((key, att), None) is not None:
                    busy.discard(w)
                    ctx.event("lost", names[key], w)
                    st["stale"] = True
            elif kind == "crash":
                if p in self.alive and self.pool:
                    self.crash(p, data, running, busy)
                    st["stale"] = True
        cache = {k: freeze(pickle.loads(data[k][0])) for k in outs}
        while ctx.queue:
            ctx.next_event()
        return nested_get(keys, cache)

    def check_again(self, name, out):
        if out["changed"]:
            raise Violation("task-changes-its-input", f"task {name} modified its input block {out['changed']}")
        if out["differs"]:
            raise Violation("task-not-repeatable", f"task {name} run twice on the same input gives different blocks")
        d = self.seen.get((self.computes, name))
        if d is not None and d != out["digest"]:
            raise Violation("task-not-repeatable", f"task {name} gave another block when run again on another worker")
        self.seen[(self.computes, name)] = out["digest"]

    def send(self, k, w, dsk, nodes, data, names, running, busy, attempts):
        ctx = self.ctx
        att = attempts.get(k, 0)
        attempts[k] = att + 1
        running[(k, att)] = w
        busy.add(w)
        self.tasks += 1
        self.reexec += att > 0
        ctx.sched("send", names[k], w, att)
        dur = 1 + ctx.choose(8, "dur")
        if self.fault("late"):
            dur += 40
        if self.fault("lose"):
            # the request or the answer is lost; the scheduler tries again later
            if ctx.choose(2, "lose-what"):
                self.run(k, w, dsk, nodes, data)
            ctx.after(dur + 20, "lost", (k, att, w))
            return
        if self.fault("crash"):
            if ctx.choose(2, "crash-when"):
                self.run(k, w, dsk, nodes, data)
            ctx.after(dur, "crash", w)
            ctx.after(dur + 5, "lost", (k, att, w))
            return
        out = self.run(k, w, dsk, nodes, data)
        ctx.after(dur, "done", (k, att, w, out))

    def run(self, k, w, dsk, nodes, data):
        deps = {}
        for d in dsk[k].dependencies:
            if d in dsk:
                blob, holders = data[d]
                deps[d] = blob
                if holders is not None:
                    holders.add(w)
        twice = self.ctx.flip(self.twice, "twice")
        self.ctx.tally("tasks_run_twice", int(twice))
        return self.alive[w].ask(pickle.dumps((nodes[k], deps, twice, self.memory)))

    def crash(self, w, data, running, busy):
        self.ctx.sched("crash", w)
        self.ctx.tally("workers_crashed")
        self.alive.pop(w).kill()
        new = self.start()
        self.ctx.event("restart", new)
        for k, (blob, holders) in list(data.items()):
            if holders is not None:
                holders.discard(w)
                if not holders:
                    del data[k]
                    self.ctx.tally("blocks_lost")
        for (k, att), x in list(running.items()):
            if x == w:
                running.pop((k, att))
        busy.discard(w)
