"""C17: a block that cannot be read spoils only the parts of a lazy result computed from it."""

from .. import catalog, compare, forked, storage
from ..daskexec import SimScheduler, installed
from ..inputs import describe, gen_chunks, is_lazy, is_xr, outcome
from ..kernel import Violation
from .base import Prop
from .c06 import fetch, gen_labelled

SKIP = ("decomposition", "recomposition", "interp_sigma_to_hybrid")


def crossing(name, params):
    """Dimensions along which a cell of the result depends on other cells."""
    if name in ("climatology_average", "climate_anomaly", "month_to_season"):
        return {"time", "t", "date", params.get("tname"), "month", "season", "hour", "day"}
    if name == "interp_multidim":
        return {"lat", "lon"}
    if name == "interp_hybrid_to_pressure":
        return {"lev", "plev", params.get("levname")}
    return set()


def closure(lo, hi, layouts):
    """The smallest range that holds [lo, hi) and is made of whole blocks of every layout."""
    while True:
        a, b = lo, hi
        for c in layouts:
            at = 0
            for n in c:
                if at < hi and at + n > lo and n:
                    a, b = min(a, at), max(b, at + n)
                at += n
        if (a, b) == (lo, hi):
            return lo, hi
        lo, hi = a, b


class Places(storage.Store):
    """A store in which a range of cells along a dimension cannot be read."""

    def __init__(self, ctx=None):
        super().__init__(ctx)
        self.dims = {}
        self.broken = None  # (dimension, size, lo, hi)
        self.touched = 0

    def read(self, name, data, key):
        if self.broken and name in self.dims:
            d, size, lo, hi = self.broken
            ds = self.dims[name]
            if d in ds and data.shape[ds.index(d)] == size:
                j = ds.index(d)
                k = key if isinstance(key, tuple) else (key,)
                s = k[j] if len(k) > j and k[0] is not Ellipsis else slice(None)
                if isinstance(s, slice):
                    a, b, _ = s.indices(size)
                else:
                    a, b = int(s), int(s) + 1
                if a < hi and b > lo:
                    self.touched += 1
                    self.first, self.count = self.reads, 1
        return super().read(name, data, key)


class P(Prop):
    id = "C17"
    runs = {"quick": 2200, "thorough": 50000}
    rule = (
        "One run: one of the operations that stay lazy, all of its array arguments in simulated storage in random blocks;"
        " then up to four rounds: a range of whole blocks along one dimension that the operation does not combine cells"
        " along becomes unreadable, a piece of the result outside it is computed and must be right, a piece inside it must"
        " fail with the storage's error; finally the storage heals and the whole result is computed. Oracle: the in-memory"
        " call. Non-trivial: at least one piece was computed while another block was unreadable; distinct by operation,"
        " layout, broken range and task order."
    )
    measure = "hash of broken ranges, pieces, reads and tasks"
    assumptions = [
        "arguments chunked differently along a dimension share the blocks that their chunk borders have in common",
        "along the dimensions that an operation combines (vertical interpolation, time of climatologies, reductions) nothing is claimed",
    ]
    stub = Prop.stub + ["storage (dask sources)"]

    @property
    def names(self):
        return [n for n in catalog.LAZY if n not in SKIP]

    def gen(self, r, i):
        name = self.names[i % len(self.names)]
        for _ in range(80):
            params = gen_labelled(r, name)
            case = catalog.fresh(name, params)
            lazy = catalog.lazy_args(name, params, case.inputs)
            names = [k for k, v in case.inputs.items() if is_xr(v) and k in lazy]
            if not names:
                continue
            ch = gen_chunks(r, case.inputs, mode="all", max_blocks=60)
            cross = crossing(name, params)
            if any(len(c) > 1 and d not in cross for k in names for d, c in ch.get(k, {}).items()):
                break
        return {
            "op": name,
            "params": params,
            "layout": {k: {"how": "dask", "chunks": ch.get(k, {}), "coords": False} for k in names},
            "rounds": [
                {"u": [r.random() for _ in range(5)], "kind": r.choice(["EIO", "ENOENT", "timeout", "HDF", "memory"]),
                 "how": r.choice(["slice", "slice", "cell", "persist"]), "inside": r.random() < 0.4}
                for _ in range(r.choice([1, 2, 4]))
            ],
            "workers": r.choice([1, 2, 4]),
        }

    def shrink(self, plan):
        if len(plan["rounds"]) > 1:
            for q in plan["rounds"]:
                yield {**plan, "rounds": [q]}
        for k, l in plan["layout"].items():
            for d, c in l["chunks"].items():
                if len(c) > 2:
                    yield {**plan, "layout": {**plan["layout"], k: {**l, "chunks": {**l["chunks"], d: [c[0], sum(c[1:])]}}}}
        if plan["workers"] != 1:
            yield {**plan, "workers": 1}

    def reference(self, plan):
        def f():
            case = catalog.fresh(plan["op"], plan["params"])
            return compare.portable_outcome(*outcome(lambda: case.fn(case.inputs)))

        return forked.call(f)

    def execute(self, plan, ctx):
        xr = catalog._xr()
        want = self.reference(plan)
        name = plan["op"]
        if want[0] == "err":
            return {"op": name, "case": name, "nontrivial": False}
        op = catalog.OPS[name]
        case = catalog.fresh(name, plan["params"])
        tol = compare.tolerances(op, plan["params"], case)
        tol["floor"] = max(tol["floor"], compare.largest(want[1]))
        store = Places(ctx)
        inp = storage.lazy_inputs(store, case.inputs, plan["layout"])
        layouts = {}
        for k, l in plan["layout"].items():
            v = inp[k]
            vs = {k: v.variable} if isinstance(v, xr.DataArray) else {f"{k}.{n}": v[n].variable for n in v.data_vars}
            for s, w in vs.items():
                store.dims[s] = tuple(map(str, w.dims))
                for d, n in zip(store.dims[s], w.shape):
                    layouts.setdefault((d, n), []).append(l["chunks"].get(d, [n]))
        tag = f"{name} chunks={ {k: l['chunks'] for k, l in plan['layout'].items()} }"
        sched = SimScheduler(ctx, plan["workers"], "random")
        done = 0
        with installed(sched):
            k, lazy = outcome(lambda: case.fn(inp))
            if k == "err" or not is_lazy(lazy) or not isinstance(lazy, (xr.DataArray, xr.Dataset)):
                raise Violation("not-lazy", f"{tag}: {describe(lazy) if k == 'err' else type(lazy).__name__}")
            cross = crossing(name, plan["params"])
            dims = [
                d for d in map(str, lazy.dims)
                if d not in cross and any(len(c) > 1 for c in layouts.get((d, lazy.sizes[d]), []))
            ]
            whole = want[1]
            for q in plan["rounds"]:
                u = q["u"]
                if not dims:
                    break
                d = dims[int(u[0] * len(dims))]
                n = lazy.sizes[d]
                ls = layouts[(d, n)]
                # the part that stays readable, then what is asked of it
                a = int(u[1] * n)
                lo, hi = closure(a, a + 1, ls)
                if (lo, hi) == (0, n):
                    continue
                before = u[2] < lo / max(1, lo + n - hi)
                store.broken = (d, n, 0, lo) if before else (d, n, hi, n)
                store.kind = q["kind"]
                if u[2] < 0.6 and lo > 0 and hi < n:  # broken on both sides: also the other one
                    store.broken = (d, n, 0, lo)
                    self.piece(ctx, plan, q, lazy, whole, d, *self.pick(q, u, lo, hi), store, tag, tol)
                    store.broken = (d, n, hi, n)
                self.piece(ctx, plan, q, lazy, whole, d, *self.pick(q, u, lo, hi), store, tag, tol)
                done += 1
                if q["inside"]:
                    b = store.broken
                    x = b[2] + int(u[4] * (b[3] - b[2]))
                    t0 = store.touched
                    k, v = outcome(lambda: fetch(lazy.isel({d: slice(x, x + 1)})))
                    ctx.tally("pieces_inside_broken_block")
                    if k == "err" and not storage.caused_by_fault(v):
                        raise Violation("storage-error-hidden", f"{tag}: {describe(v)}")
                    if k == "ok" and store.touched > t0:
                        raise Violation("fault-swallowed", f"{tag}: {d}[{x}] computed although its block could not be read")
                store.broken = None
                store.heal()
            k, v = outcome(lambda: fetch(lazy))
            if k == "err":
                raise Violation("compute-fails", f"{tag}: after the storage healed: {describe(v)}")
            e = compare.same(whole, compare.portable(v), **tol)
            if e:
                raise Violation("wrong-result", f"{tag}: {e}")
        ctx.tally("reads", store.reads)
        ctx.tally("failed_reads", store.failed)
        return {"op": name, "case": f"{name}|{plan['layout']}", "nontrivial": done > 0, "rounds": done}

    def pick(self, q, u, lo, hi):
        if q["how"] == "cell":
            a = lo + int(u[3] * (hi - lo))
            return a, a + 1
        a = lo + int(u[3] * (hi - lo))
        return (a, hi) if u[4] < 0.5 else (lo, a + 1)

    def piece(self, ctx, plan, q, lazy, whole, d, a, b, store, tag, tol):
        part = lazy.isel({d: slice(a, b)})
        t0 = store.touched
        k, v = outcome(lambda: fetch(part.persist() if q["how"] == "persist" else part))
        ctx.sched("piece", d, a, b, store.broken[2:], k)
        ctx.tally("pieces_outside_broken_blocks")
        where = f"{tag}: {d}[{a}:{b}] with {d}[{store.broken[2]}:{store.broken[3]}] unreadable"
        if k == "err":
            why = "read the unreadable part" if store.touched > t0 else "failed"
            raise Violation("spoiled", f"{where}: {why}: {describe(v)}")
        e = compare.same(compare.isel(whole, d, a, b), compare.portable(v), **tol)
        if e:
            raise Violation("piece-differs", f"{where}: {e}")


PROP = P()
