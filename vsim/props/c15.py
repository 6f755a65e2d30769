"""C15: a finished call keeps nothing of its arguments or its result alive."""

import gc
import queue
import threading
import tracemalloc
import weakref

import numpy as np

from .. import catalog, forked, trace
from ..daskexec import SimScheduler, installed
from ..dress import damage
from ..inputs import any_lazy, chunk_inputs, compute
from ..kernel import Ctx, Violation
from .base import Prop
from .c07 import reseed
from .c08 import gen_single, resolve_site
from .c14 import EXC, MARK, attempt

ENDS = ["plain", "plain", "inject", "inject", "bad", "abandon", "recompute"]
ROUNDS = 8


COSTLY = ("climat", "calendar", "month_to")  # their graphs are large


class Worker:
    """A thread that makes the calls and stays alive between them."""

    def __init__(self):
        self.q, self.a = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.loop, name="vsim-caller", daemon=True)
        self.t.start()

    def loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            f()
            del f
            self.a.put(1)

    def run(self, f):
        self.q.put(f)
        del f
        self.a.get()

    def close(self):
        self.q.put(None)
        self.t.join()


def owner(a):
    """The array that owns the memory of a."""
    while isinstance(getattr(a, "base", None), np.ndarray):
        a = a.base
    return a


def watch(x, label, out, seen):
    """Weak references to a labelled object, its variables and the arrays with the memory."""
    xr = catalog._xr()
    if isinstance(x, np.ndarray):
        a = owner(x)
        for o, n in ((x, label), (a, f"memory of {label}")):
            if id(o) not in seen:
                seen.add(id(o))
                out.append((n, weakref.ref(o)))
        if x.dtype == object and x.size < 50:
            for v in x.ravel():
                if isinstance(v, (np.ndarray, xr.DataArray)):
                    watch(v, f"{label} element", out, seen)
    elif isinstance(x, (xr.DataArray, xr.Dataset)):
        if id(x) not in seen:
            seen.add(id(x))
            out.append((label, weakref.ref(x)))
        for k, v in x.variables.items() if isinstance(x, xr.Dataset) else [("", x.variable)] + list(x._coords.items()):
            if isinstance(v._data, np.ndarray):
                watch(v._data, f"{label} {k}".strip(), out, seen)
    elif isinstance(x, dict):
        for k, v in x.items():
            watch(v, f"{label} {k}", out, seen)
    elif isinstance(x, (list, tuple)):
        for j, v in enumerate(x):
            watch(v, f"{label} {j}", out, seen)


def array_memory():
    """Bytes held by numpy arrays."""
    s = tracemalloc.take_snapshot().filter_traces([tracemalloc.DomainFilter(True, np.lib.tracemalloc_domain)])
    return sum(t.size for t in s.traces)


class P(Prop):
    id = "C15"
    runs = {"quick": 1800, "thorough": 40000}
    rule = (
        "One run: a history of 1-5 calls, each of which returns, fails, is cut short at a source line, is left uncomputed,"
        " or is computed once or twice by the simulated scheduler, on the main thread or on a thread that lives on; the"
        " caller then drops everything. One run in seven makes eight like calls and count the memory of arrays. Oracle: weak"
        " references to all argument and result objects and to the arrays that own their memory are dead; array memory"
        " does not grow with the number of calls. Non-trivial: at least one call ended and was watched; distinct by"
        " operations, endings and lines."
    )
    measure = "hash of the history (operations, endings, lines cut short, task order)"
    assumptions = ["the caller collects garbage cycles (gc.collect) before memory is looked at"]
    stub = Prop.stub + ["source of asynchronous exceptions"]

    def setup(self):
        trace.install()

    def gen(self, r, i):
        k = i // len(catalog.OPS)
        first = gen_single(self, r, i, 0.4)
        if r.random() < 0.15:
            if sum(len(s) for v in first["chunks"].values() for s in (v.values() if isinstance(v, dict) else [])) > 6 or first["op"].startswith(COSTLY):
                first["chunks"] = {}
            return {
                "mode": "growth", "calls": [{**first, "end": r.choice(ENDS), "at": [r.random(), r.random()],
                                             "exc": r.choice(list(EXC)), "bad": r.randrange(4)}],
                "workers": r.choice([1, 2]), "thread": r.random() < 0.3,
            }
        calls = []
        for j in range(r.choice([1, 1, 2, 3, 5])):
            if j == 0:
                c = first
            elif r.random() < 0.5:
                c = dict(first, params=reseed(first["params"], r.randrange(10**6)))
            else:
                c = gen_single(self, r, r.randrange(10**4), 0.4)
            calls.append({
                **c, "end": r.choice(ENDS), "at": [(k * 0.6180339887498949) % 1.0 if j == 0 else r.random(), r.random()],
                "exc": r.choice(list(EXC)), "bad": r.randrange(4),
            })
        return {"mode": "history", "calls": calls, "workers": r.choice([1, 2, 3]), "thread": r.random() < 0.3}

    def shrink(self, plan):
        h = plan["calls"]
        for k in range(len(h)):
            if len(h) > 1:
                yield {**plan, "calls": h[:k] + h[k + 1 :]}
        for k in range(len(h)):
            for a, b in (("end", "plain"), ("chunks", {})):
                if h[k][a] != b:
                    yield {**plan, "calls": h[:k] + [dict(h[k], **{a: b})] + h[k + 1 :]}
        for a, b in (("thread", False), ("workers", 1)):
            if plan[a] != b:
                yield {**plan, a: b}

    def make(self, c):
        case = catalog.fresh(c["op"], c["params"])
        inp = chunk_inputs(case.inputs, c["chunks"])
        refs, seen = [], set()
        watch(case.inputs, "argument", refs, seen)
        if c["chunks"]:
            watch(inp, "chunked argument", refs, seen)
        if c["end"] == "bad":
            inp = damage(inp, c["bad"])
            watch(inp, "argument", refs, seen)
        return case.fn, inp, refs, seen

    def sites(self, c):
        def f():
            fn, inp, _, _ = self.make(c)
            rec = trace.Recorder()
            with installed(SimScheduler(Ctx(0, {}), 1, "fifo")), trace.handling(rec):
                attempt(lambda: compute(fn(inp)))
            return rec.inj

        return forked.call(f)

    def one(self, c, handler, ctx):
        """Make one call, drop everything, return the weak references."""
        fn, inp, refs, seen = self.make(c)
        with trace.handling(handler):
            if c["end"] == "abandon":
                k, v = attempt(lambda: fn(inp))
            else:
                k, v = attempt(lambda: fn(inp))
                if k == "ok" and any_lazy(v):
                    watch(v, "lazy result", refs, seen)
                    lazy = v
                    k, v = attempt(lambda: compute(lazy))
                    if c["end"] == "recompute":
                        if k == "ok":
                            watch(v, "result", refs, seen)
                        k, v = attempt(lambda: compute(lazy))
                    del lazy
        watch(v, "result", refs, seen) if k == "ok" else None
        return k, refs

    def execute(self, plan, ctx):
        ends, total = [], 0
        worker = Worker() if plan["thread"] else None
        try:
            handlers = {}
            for j, c in enumerate(plan["calls"]):
                if c["end"] == "inject":
                    at = resolve_site(self.sites(c), *c["at"])
                    if at:
                        handlers[j] = at
            if plan["mode"] == "growth":
                return self.growth(plan, ctx, handlers, worker)
            refs = []
            sched = SimScheduler(ctx, plan["workers"], "random")
            with installed(sched):
                for j, c in enumerate(plan["calls"]):
                    got = self.step(c, handlers.get(j), ctx, worker)
                    ends.append(f"{c['op']}:{c['end']}:{got[0]}")
                    refs += [(f"{n} of {c['op']} (call {j}, {c['end']})", w) for n, w in got[1]]
                    ctx.sched("call", c["op"], c["end"], got[0], handlers.get(j))
                    ctx.tally(f"ended_{c['end']}_{got[0]}")
            del got
            gc.collect()
            gc.collect()
            alive = [n for n, w in refs if w() is not None]
            if alive:
                raise Violation("kept-alive", f"after {ends}: {alive[0]} is still alive" + (f" (and {len(alive) - 1} more)" if len(alive) > 1 else ""))
            total = len(refs)
        finally:
            if worker:
                worker.close()
        ctx.tally("objects_watched", total)
        ctx.tally("on_a_living_thread", int(plan["thread"]))
        return {"op": plan["calls"][0]["op"], "case": "|".join(ends), "nontrivial": total > 0, "history": len(ends)}

    def step(self, c, at, ctx, worker):
        h = trace.Injector(at[0], at[1], EXC[c["exc"]](MARK)) if at else None
        box = []
        if worker:
            worker.run(lambda: box.append(self.one(c, h, ctx)))
        else:
            box.append(self.one(c, h, ctx))
        if h is not None:
            ctx.tally("injected", int(h.fired))
        return box[0]

    def growth(self, plan, ctx, handlers, worker):
        c = plan["calls"][0]
        tracemalloc.start(1)
        try:
            sizes, args = [], 0
            with installed(SimScheduler(ctx, plan["workers"], "random")):
                for j in range(ROUNDS + 3):
                    q = dict(c, params=reseed(c["params"], (c["params"].get("seed", 0) + 101 * j) % 10**6))
                    self.step(q, handlers.get(0), ctx, worker)
                    if j in (2, ROUNDS + 2):
                        gc.collect()
                        gc.collect()
                        sizes.append(array_memory())
                fn, inp, _, _ = self.make(c)
                args = array_memory() - sizes[-1]
                del fn, inp
        finally:
            tracemalloc.stop()
        grown = sizes[1] - sizes[0]
        ctx.sched("growth", c["op"], c["end"], ROUNDS)
        ctx.tally("growth_runs")
        if grown > 64 * ROUNDS and grown > 0.25 * ROUNDS * max(64, min(args, 400)):
            raise Violation("memory-grows", f"{c['op']} ({c['end']}): {ROUNDS} calls left {grown} bytes of arrays behind (arguments of one call: {args})")
        return {"op": c["op"], "case": f"{c['op']}|{c['end']}|growth|{c['chunks']}", "nontrivial": True, "history": ROUNDS + 3}


PROP = P()
