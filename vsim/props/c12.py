"""C12: lazy operations read nothing until the result is computed."""

from .. import catalog, compare, forked, storage
from ..daskexec import SimScheduler, installed
from ..inputs import any_lazy, describe, gen_chunks, is_lazy, is_xr, outcome
from ..kernel import Ctx, Violation
from .base import Prop
from .c06 import fetch, gen_labelled
from .lazy import EXCLUDED


class P(Prop):
    id = "C12"
    runs = {"quick": 2000, "thorough": 40000}
    rule = (
        "One run: one of the operations that stay lazy, on dask arguments whose blocks are read from simulated"
        " storage that is down during the call, with random chunk layouts; then the storage comes up, for good or"
        " going down again during the compute, and the result is computed once or twice. Oracle: the number of reads"
        " at the storage seam during the call (must be 0) and the in-memory call. Non-trivial: the compute read at"
        " least one block; distinct by operation, arguments, layout and order of reads."
    )
    measure = "hash of the order of reads and tasks"
    assumptions = ["index coordinates are in memory, as xarray always holds them"]
    stub = Prop.stub + ["storage (dask sources)"]

    @property
    def names(self):
        return catalog.LAZY

    def gen(self, r, i):
        name = self.names[i % len(self.names)]
        for _ in range(50):
            params = gen_labelled(r, name)
            case = catalog.fresh(name, params)
            lazy = catalog.lazy_args(name, params, case.inputs)
            names = [k for k, v in case.inputs.items() if is_xr(v) and k in lazy]
            if names:
                break
        ch = gen_chunks(r, case.inputs, max_blocks=30)
        how = r.choice(["dask", "dask", "chunked"])
        sel = names[: 1 + r.randrange(len(names))] if r.random() < 0.5 else names
        return {
            "op": name,
            "params": params,
            "layout": {k: {"how": how, "chunks": ch.get(k, {}), "coords": False} for k in sel},
            "outage": r.random() < 0.3,
            "at": r.random(),
            "times": r.choice([1, 1, 2]),
            "workers": r.choice([1, 2, 4]),
        }

    def shrink(self, plan):
        for k, l in plan["layout"].items():
            if len(plan["layout"]) > 1:
                yield {**plan, "layout": {a: b for a, b in plan["layout"].items() if a != k}}
            for d, c in l["chunks"].items():
                if len(c) > 1:
                    yield {**plan, "layout": {**plan["layout"], k: {**l, "chunks": {**l["chunks"], d: [sum(c)]}}}}
        for k, v in (("outage", False), ("times", 1), ("workers", 1)):
            if plan[k] != v:
                yield {**plan, k: v}

    def reference(self, plan):
        def f():
            case = catalog.fresh(plan["op"], plan["params"])
            return compare.portable_outcome(*outcome(lambda: case.fn(case.inputs)))

        return forked.call(f)

    def execute(self, plan, ctx):
        want = self.reference(plan)
        op = catalog.OPS[plan["op"]]
        case = catalog.fresh(plan["op"], plan["params"])
        store = storage.Store(ctx)
        inp = storage.lazy_inputs(store, case.inputs, plan["layout"])
        sched = SimScheduler(ctx, plan["workers"], "random")
        tag = f"{plan['op']} {plan['params']} with {sorted(plan['layout'])} in storage"
        with installed(sched):
            store.offline = True
            store.kind = "EIO"
            k, lazy = outcome(lambda: case.fn(inp))
            tried = store.reads
            if tried:
                raise Violation(
                    "read-before-compute",
                    f"{tag}: the call tried to read {tried} times ({'it failed with ' + describe(lazy) if k == 'err' else 'it returned'})",
                )
            if want[0] == "err":
                # what is wrong with the arguments may be noticed at once or at the compute
                if k == "err":
                    ctx.tally("argument_errors_at_call")
                    return {"op": plan["op"], "case": plan["op"], "nontrivial": False}
                store.heal()
                k, v = outcome(lambda: fetch(lazy))
                if k == "ok":
                    raise Violation("result-instead-of-error", f"{tag}: in memory {want[1]}: {want[2]}")
                return {"op": plan["op"], "case": plan["op"], "nontrivial": False}
            if k == "err":
                raise Violation("call-fails-lazily", f"{tag}: in memory fine, here {describe(lazy)}")
            if not is_lazy(lazy):
                raise Violation("not-lazy", f"{tag}: the result is not chunked")
            store.heal()
            tol = compare.tolerances(op, plan["params"], case)
            if plan["outage"]:
                n = forked.call(lambda: self.count(plan))
                store.break_reads("EIO", int(plan["at"] * max(1, n)), 10**9)
                k, v = outcome(lambda: fetch(lazy))
                ctx.tally("outages_during_compute", int(k == "err"))
                if k == "err" and not storage.caused_by_fault(v):
                    raise Violation("storage-error-hidden", f"{tag}: {describe(v)}")
                store.heal()
            for j in range(plan["times"]):
                r0 = store.reads
                k, v = outcome(lambda: fetch(lazy))
                if k == "err":
                    raise Violation("compute-fails", f"{tag}: {describe(v)}")
                d = compare.same(want[1], compare.portable(v), **tol)
                if d:
                    raise Violation("wrong-result", f"{tag}: {d}")
        ctx.tally("reads", store.reads)
        ctx.tally("calls_with_storage_down")
        return {"op": plan["op"], "case": f"{plan['op']}|{plan['layout']}", "nontrivial": store.reads > 0}

    def count(self, plan):
        case = catalog.fresh(plan["op"], plan["params"])
        store = storage.Store()
        inp = storage.lazy_inputs(store, case.inputs, plan["layout"])
        with installed(SimScheduler(Ctx(0, {}), 1, "fifo")):
            outcome(lambda: fetch(case.fn(inp)))
        return store.reads


PROP = P()
