"""C01-C04: chunked input gives what in-memory input gives, under any schedule."""

import numpy as np

from .. import catalog, compare
from ..daskexec import SimScheduler, installed
from ..inputs import (
    chunk_inputs, compute, describe, err_kind, gen_chunks, is_lazy, n_blocks,
    outcome, same_error, shrink_chunks,
)
from ..kernel import Violation
from .base import Prop, shrink_params

# the EOF functions delegate to a dask SVD of eofs/dask whose sign and rounding
# are not a promise of geocat.comp; their chunked use is not part of C04
EXCLUDED = {"eofunc", "eofunc_ts", "eofunc_eofs", "eofunc_pcs", "deprecated"}


class LazyProp(Prop):
    families = ()
    rule = (
        "One run: a random operation of the family with random arguments; a random chunk layout on a random"
        " subset of them (uneven, single-cell, head/tail splits); the call, then the compute, run by the simulated"
        " scheduler (random ready task, 1-6 workers, random task durations, fused or unfused graph, whole result,"
        " pieces, or persist). Oracle: the same call on in-memory data. Non-trivial: the result was lazy or some"
        " argument had more than one block, and at least 4 tasks were scheduled; distinct by operation, layout and"
        " schedule signature."
    )
    measure = "hash of the order in which tasks (canonical names) were started"
    assumptions = [
        "values are compared up to 1e-9 relative (f4: 64 eps): chunked reductions round differently",
        "uxarray's zonal mean is replaced by a fixed linear operator",
    ]

    @property
    def names(self):
        return [
            n for f in self.families for n in catalog.FAMILIES[f] if n not in EXCLUDED
        ]

    def gen(self, r, i):
        name = self.pick_op(r, self.names, i)
        op = catalog.OPS[name]
        for _ in range(8):
            params = op.gen(r)
            if params.get("container") in ("np", "list", "float", "scalar"):
                if r.random() < 0.1:
                    continue
                params["container"] = "xr"
            case = catalog.fresh(name, params)
            chunks = gen_chunks(r, case.inputs)
            if chunks and n_blocks(chunks) > 1:
                break
        return {
            "op": name,
            "params": params,
            "chunks": chunks if params.get("container") not in ("np", "list", "float", "scalar") else {},
            "workers": r.choice([1, 1, 2, 3, 4, 6]),
            "policy": r.choice(["random", "random", "random", "fifo", "lifo"]),
            "fuse": r.random() < 0.7,
            "how": r.choice(["whole", "whole", "whole", "noopt", "pieces", "persist", "again"]),
        }

    def shrink(self, plan):
        for c in shrink_chunks(plan["chunks"]):
            yield {**plan, "chunks": c}
        for k, v in (("workers", 1), ("policy", "fifo"), ("fuse", True), ("how", "whole")):
            if plan[k] != v:
                yield {**plan, k: v}
        op = catalog.OPS[plan["op"]]
        for q in shrink_params(op, plan["params"]):
            try:
                case = catalog.fresh(plan["op"], q)
            except Exception:
                continue
            ch = {}
            for k, c in plan["chunks"].items():
                if k in case.inputs:
                    v = case.inputs[k]
                    ch[k] = {d: fit(c.get(d, [v.sizes[d]]), v.sizes[d]) for d in map(str, v.dims)}
            yield {**plan, "params": q, "chunks": ch}

    def execute(self, plan, ctx):
        import dask

        name, params = plan["op"], plan["params"]
        ref_case = catalog.fresh(name, params)
        rk, ref = outcome(lambda: ref_case.fn(ref_case.inputs))
        case = catalog.fresh(name, params)
        inp = chunk_inputs(case.inputs, plan["chunks"])
        sched = SimScheduler(ctx, plan["workers"], plan["policy"])
        lazy = False
        with installed(sched), dask.config.set({"optimization.fuse.active": plan["fuse"]}):
            k, v = outcome(lambda: case.fn(inp))
            calls = sched.tasks
            if k == "ok":
                lazy = is_lazy(v)
                if lazy:
                    ctx.tally("lazy_results")
                tol = compare.tolerances(catalog.OPS[name], params, ref_case)
                k, v = outcome(lambda: self.finish(plan, ctx, v, tol["floor"]))
        tag = f"{name} chunks={plan['chunks']}"
        if rk == "err":
            ctx.tally("error_cases")
            ctx.event("ref-err", err_kind(ref))
            if k == "ok":
                raise Violation(
                    "accepted-when-chunked",
                    f"{tag}: in memory {describe(ref)}; chunked input gave a result",
                )
            if not same_error(ref, v):
                raise Violation(
                    "different-error", f"{tag}: in memory {describe(ref)}; chunked {describe(v)}"
                )
        else:
            if k == "err":
                raise Violation("fails-when-chunked", f"{tag}: in memory fine; chunked {describe(v)}")
            d = compare.same(ref, v, **compare.tolerances(catalog.OPS[name], params, ref_case))
            if d:
                raise Violation("differs-when-chunked", f"{tag}: {d}")
        ctx.tally("tasks", sched.tasks)
        ctx.tally("tasks_run_by_the_call", calls)
        ctx.tally("computes", sched.computes)
        return {
            "op": name,
            "case": f"{name}|{plan['chunks']}",
            "nontrivial": bool(rk == "ok" and plan["chunks"] and sched.tasks >= 4),
            "how": plan["how"],
            "blocks": n_blocks(plan["chunks"]) if plan["chunks"] else 0,
            "tasks": sched.tasks,
        }

    def finish(self, plan, ctx, v, floor):
        how = plan["how"]
        xr = catalog._xr()
        if how == "noopt":
            return compute(v, optimize_graph=False)
        if how == "persist" and hasattr(v, "persist"):
            return compute(v.persist())
        if how == "again":
            a = compute(v)
            b = compute(v)
            d = compare.same(
                a, b, rtol=4e-5 if plan["params"].get("dtype") == "f4" else 1e-9, floor=floor
            )
            if d:
                raise Violation("recompute-differs", f"{plan['op']}: {d}")
            return b
        if how == "pieces" and isinstance(v, xr.DataArray) and v.ndim and v.sizes[v.dims[0]] > 1:
            d = v.dims[ctx.choose(v.ndim, "piece-dim")]
            n = v.sizes[d]
            cut = 1 + ctx.choose(n - 1, "piece-cut") if n > 1 else n
            whole = compute(v)
            f4 = plan["params"].get("dtype") == "f4"
            fin = abs(whole.values[np.isfinite(whole.values)]) if whole.dtype.kind in "fc" else []
            big = max(float(np.max(fin)) if len(fin) else 0.0, floor)
            parts = [compute(v.isel({d: slice(cut, None)})), compute(v.isel({d: slice(0, cut)}))]
            for got, sl in zip(parts, (slice(cut, None), slice(0, cut))):
                e = compare.same(whole.isel({d: sl}), got, rtol=4e-5 if f4 else 1e-9, floor=big)
                if e:
                    raise Violation("piece-differs", f"{plan['op']} {d}[{sl.start}:{sl.stop}]: {e}")
            return whole
        return compute(v)


def fit(c, n):
    """Adapt a chunk layout to another length."""
    out, left = [], n
    for x in c:
        if left <= 0:
            break
        out.append(min(x, left))
        left -= out[-1]
    if left:
        out.append(left)
    return out or [0]
