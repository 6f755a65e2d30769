"""The dask scheduler, in the simulator's hands.

`SimScheduler` is installed as the scheduler of every dask compute in the
process.  It receives the real task graph and decides the order in which tasks
run on a number of simulated workers, task durations, re-executions, and faults.
Task functions are real code run in this process; `vsim.cluster` has the variant
that ships them to other processes.
"""

import hashlib

import dask
import dask.base
import numpy as np
from dask._task_spec import Alias, DataNode, GraphNode, TaskRef, convert_legacy_graph
from dask.core import flatten
from dask.utils import key_split


def graph_of(dsk):
    if hasattr(dsk, "__dask_graph__"):
        dsk = dsk.__dask_graph__()
    return convert_legacy_graph(dict(dsk))


def _data_sig(node):
    """What distinguishes one data node from another of the same name."""
    v = getattr(node, "value", None)
    a = getattr(v, "array", v)  # unwrap ImplicitToExplicitIndexingAdapter and the like
    if isinstance(a, np.ndarray) and a.dtype.kind in "biufcmM" and a.size < 4096:
        return f"{a.dtype}{a.shape}".encode() + np.ascontiguousarray(a).tobytes()
    if isinstance(v, (int, float, str, tuple)):
        return repr(v).encode()[:200]
    return type(v).__name__.encode()


def _ordered_deps(node):
    """Dependencies in argument order where the node shows it."""
    out, seen = [], set()

    def walk(x, depth=0):
        if isinstance(x, (TaskRef, Alias)):
            k = x.key if isinstance(x, TaskRef) else x.target
            if k not in seen:
                seen.add(k)
                out.append(k)
        elif isinstance(x, GraphNode):
            for y in getattr(x, "args", ()) or ():
                walk(y, depth + 1)
            for y in (getattr(x, "kwargs", None) or {}).values():
                walk(y, depth + 1)
        elif isinstance(x, (list, tuple)) and depth < 6:
            for y in x:
                walk(y, depth + 1)
        elif isinstance(x, dict) and depth < 6:
            for y in x.values():
                walk(y, depth + 1)

    if isinstance(node, Alias):
        return [node.target], []
    walk(node)
    deps = node.dependencies
    out = [k for k in out if k in deps]
    rest = [k for k in deps if k not in seen]
    return out, rest


def canonical(dsk, outs):
    """Needed keys in an order and with names free of random tokens.

    Keys carry tokens that differ from process to process; a key's identity here
    is its task, its place in the graph and the data below it."""
    sig, order, stack = {}, [], [(k, False) for k in reversed(outs)]
    while stack:
        k, done = stack.pop()
        if k in sig and sig[k] is not None:
            continue
        node = dsk[k]
        deps = node.dependencies
        if not done:
            if k in sig:
                continue
            sig[k] = None
            stack.append((k, True))
            for d in sorted(deps, key=_keysort, reverse=True):
                if sig.get(d) is None and d in dsk:
                    stack.append((d, False))
            continue
        h = hashlib.blake2b(digest_size=8)
        h.update(type(node).__name__.encode())
        f = getattr(node, "func", None)
        h.update(str(getattr(f, "__name__", type(f).__name__)).encode())
        h.update(_name(k).encode())
        if isinstance(node, DataNode):
            h.update(_data_sig(node))
        known, rest = _ordered_deps(node)
        for d in known:
            if d in dsk:
                h.update(b"a" + sig[d])
        for s in sorted(sig[d] for d in rest if d in dsk):
            h.update(b"r" + s)
        sig[k] = h.digest()
        order.append(k)
    # where the results go tells apart what looks the same from below
    up = {k: [] for k in order}
    for j, k in enumerate(outs):
        up[k].append(b"o%d" % j)
    for k in reversed(order):
        sig[k] = hashlib.blake2b(sig[k] + b"|".join(sorted(up[k])), digest_size=8).digest()
        node = dsk[k]
        known, rest = _ordered_deps(node)
        for j, d in enumerate(known):
            if d in up:
                up[d].append(sig[k] + b"a%d" % j)
        for d in rest:
            if d in up:
                up[d].append(sig[k] + b"r")
    # stable names: prefix, block index, and an ordinal
    names, seen = {}, {}
    for k in sorted(order, key=lambda k: (_name(k), sig[k], _keysort(k))):
        base = _name(k)
        n = seen.get(base, 0)
        seen[base] = n + 1
        names[k] = f"{base}.{n}" if n else base
    return names


def _keysort(k):
    return (str(k[0]), tuple(map(str, k[1:]))) if isinstance(k, tuple) else (str(k), ())


def _name(k):
    if isinstance(k, tuple):
        return key_split(k) + str(tuple(i if isinstance(i, int) else str(key_split(i)) for i in k[1:]))
    return str(key_split(k))


def nested_get(ind, coll):
    if isinstance(ind, list):
        return tuple(nested_get(i, coll) for i in ind)
    return coll[ind]


class SimScheduler:
    """Executor with simulated workers; call signature of a dask `get`."""

    def __init__(self, ctx, workers=1, policy="random", hook=None, faults=None):
        self.ctx = ctx
        self.workers = max(1, workers)
        self.policy = policy
        self.hook = hook  # hook(name, node, data, run) -> result
        self.computes = 0
        self.tasks = 0
        self.labels = "task"

    def __call__(self, dsk, keys, **kw):
        ctx = self.ctx
        self.computes += 1
        dsk = graph_of(dsk)
        outs = list(flatten([keys])) if isinstance(keys, list) else [keys]
        names = canonical(dsk, outs)
        cache = {}
        waiting, dependents, ready = {}, {}, []
        for k in names:
            deps = {d for d in dsk[k].dependencies if d in dsk}
            waiting[k] = set(deps)
            for d in deps:
                dependents.setdefault(d, []).append(k)
        refs = {k: len(v) for k, v in dependents.items()}
        for k in names:
            if not waiting[k]:
                ready.append(k)
        ready.sort(key=names.__getitem__)
        running = []  # (finish time, seq, key, result)
        wanted = set(outs)
        total, done = len(names), 0
        ctx.event("compute", self.computes, total)
        while done < total:
            while ready and len(running) < self.workers:
                i = self._pick(ready)
                k = ready.pop(i)
                node = dsk[k]
                if isinstance(node, DataNode):
                    res = node()
                else:
                    data = {d: cache[d] for d in node.dependencies if d in cache}
                    if not isinstance(node, Alias):
                        ctx.sched("run", names[k])
                        self.tasks += 1
                    if self.hook is not None and not isinstance(node, Alias):
                        res = self.hook(names[k], node, data, self)
                    else:
                        res = node(data)
                d = 1 + ctx.choose(8, "dur") if self.workers > 1 else 1
                running.append((ctx.now + d, len(running), k, res))
            running.sort(key=lambda r: (r[0], r[1]))
            t, _, k, res = running.pop(0)
            ctx.now = max(ctx.now, t)
            cache[k] = res
            done += 1
            new = []
            for e in dependents.get(k, ()):
                waiting[e].discard(k)
                if not waiting[e]:
                    new.append(e)
            new.sort(key=names.__getitem__)
            ready.extend(new)
            for d in dsk[k].dependencies:
                if d in refs:
                    refs[d] -= 1
                    if not refs[d] and d not in wanted:
                        cache.pop(d, None)
        return nested_get(keys, cache)

    def _pick(self, ready):
        n = len(ready)
        if self.policy == "fifo":
            return 0
        if self.policy == "lifo":
            return n - 1
        return self.ctx.choose(n, "ready")


class installed:
    """Route every dask compute of the process to `sched`."""

    def __init__(self, sched):
        self.sched = sched

    def __enter__(self):
        self.saved = dict(dask.base.named_schedulers)
        for k in list(dask.base.named_schedulers):
            dask.base.named_schedulers[k] = self.sched
        self.cfg = dask.config.set(scheduler=self.sched)
        self.cfg.__enter__()
        return self.sched

    def __exit__(self, *a):
        self.cfg.__exit__(*a)
        dask.base.named_schedulers.clear()
        dask.base.named_schedulers.update(self.saved)


class ThreadScheduler:
    """Dask's threaded executor on simulated threads (see vsim.threads).

    Tasks overlap: a worker can lose the processor at any source line of the
    code under test inside a task."""

    def __init__(self, ctx, workers=2, before_worker=None, after_task=None, faults=None):
        self.ctx = ctx
        self.workers = max(1, workers)
        self.tasks = 0
        self.computes = 0
        self.overlaps = 0
        self.before_worker = before_worker  # in each worker thread, when it starts
        self.after_task = after_task  # in the worker thread, after each task
        self.faults = faults  # faults(sim) -> None, in the new worker thread

    def __call__(self, dsk, keys, **kw):
        from . import locks, threads

        sim = locks.current
        if sim is None or not sim.mine():
            return SimScheduler(self.ctx, 1, "fifo")(dsk, keys)
        ctx = self.ctx
        self.computes += 1
        dsk = graph_of(dsk)
        outs = list(flatten([keys])) if isinstance(keys, list) else [keys]
        names = canonical(dsk, outs)
        cache, dependents, waiting = {}, {}, {}
        for k in names:
            deps = {d for d in dsk[k].dependencies if d in dsk}
            waiting[k] = deps
            for d in deps:
                dependents.setdefault(d, []).append(k)
        ready = sorted((k for k in names if not waiting[k]), key=names.__getitem__)
        st = {"done": 0, "err": None, "busy": 0}
        total = len(names)

        def over():
            return st["done"] == total or st["err"] is not None

        def worker():
            if self.before_worker:
                self.before_worker()
            if self.faults:
                self.faults(sim)
            while True:
                sim.wait(lambda: ready or over())
                if over():
                    return
                k = ready.pop(ctx.choose(len(ready), "ready") if len(ready) > 1 else 0)
                node = dsk[k]
                st["busy"] += 1
                if st["busy"] > 1:
                    self.overlaps += 1
                try:
                    if isinstance(node, DataNode):
                        res = node()
                    else:
                        if not isinstance(node, Alias):
                            self.tasks += 1
                            ctx.event("task", names[k])
                        res = node({d: cache[d] for d in node.dependencies if d in cache})
                except threads.Killed:
                    raise
                except BaseException as e:
                    if st["err"] is None:
                        st["err"] = e
                    return
                finally:
                    st["busy"] -= 1
                    if self.after_task:
                        self.after_task(names[k])
                cache[k] = res
                st["done"] += 1
                new = []
                for e in dependents.get(k, ()):
                    waiting[e].discard(k)
                    if not waiting[e]:
                        new.append(e)
                ready.extend(sorted(new, key=names.__getitem__))

        if total:
            for _ in range(min(self.workers, total)):
                sim.spawn(worker, worker=True)
            sim.wait(over)
        if st["err"] is not None:
            raise st["err"]
        return nested_get(keys, cache)
