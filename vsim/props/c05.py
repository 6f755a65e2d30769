"""C05: lazy results survive worker crashes, retries, duplicates and shipping."""

from .. import catalog, compare, forked
from ..cluster import Cluster
from ..daskexec import SimScheduler, installed
from ..inputs import chunk_inputs, compute, describe, err_kind, gen_chunks, is_lazy, n_blocks, outcome, same_error, shrink_chunks
from ..kernel import Ctx, Violation
from .base import Prop, shrink_params
from .c06 import gen_labelled
from .lazy import EXCLUDED, fit

KINDS = ["crash", "lose", "dup", "late"]


class P(Prop):
    id = "C05"
    runs = {"quick": 2000, "thorough": 30000}
    wall = {"quick": 300, "thorough": 3000}
    rule = (
        "One run: one operation on chunked arguments, computed on a simulated cluster of 1-3 worker processes that were"
        " forked before the call; every task is serialised and run there on read-only blocks, on blocks that own writable"
        " memory, or on views of the message; up to six faults: worker"
        " crashes (before, after and between tasks; blocks held there are lost and recomputed on a fresh process), lost"
        " requests and answers, late answers, duplicated tasks; 20% or 60% of the tasks are run twice. Oracle: the fault-free"
        " run in one process; digests of task inputs before and after; equality of repeated tasks; progress within a"
        " bound. Non-trivial: a fault was injected and at least 3 tasks ran; distinct by operation, layout and event trace."
    )
    measure = "hash of the order of task assignments, attempts and crashes"
    assumptions = ["worker processes share the code and the libraries' import state with the client"]
    stub = Prop.stub + ["cluster scheduler, network and worker life cycle (worker processes run the real tasks)"]

    @property
    def names(self):
        return [n for n in catalog.OPS if n not in EXCLUDED and not n.startswith("zonal")]

    def gen(self, r, i):
        for _ in range(20):
            name = self.pick_op(r, self.names, i)
            params = gen_labelled(r, name)
            chunks = gen_chunks(r, catalog.fresh(name, params).inputs, max_blocks=10)
            if n_blocks(chunks) > 1:
                break
        f = {}
        for k in r.sample(KINDS, r.choice([1, 2, 4])):
            f[k] = r.choice([0.02, 0.1, 0.3])
        return {
            "op": name,
            "params": params,
            "chunks": chunks,
            "size": r.choice([1, 2, 2, 3]),
            "faults": f,
            "fuse": r.random() < 0.5,
            "memory": r.choice(["readonly", "readonly", "owned", "owned", "owned", "buffer"]),
            "twice": r.choice([0.2, 0.2, 0.6]),
        }

    def shrink(self, plan):
        for c in shrink_chunks(plan["chunks"]):
            yield {**plan, "chunks": c}
        for k in plan["faults"]:
            yield {**plan, "faults": {a: b for a, b in plan["faults"].items() if a != k}}
        for k, v in (("size", 1), ("fuse", True), ("memory", "readonly"), ("twice", 0.2)):
            if plan[k] != v:
                yield {**plan, k: v}

    def reference(self, plan):
        import dask

        def f():
            case = catalog.fresh(plan["op"], plan["params"])
            inp = chunk_inputs(case.inputs, plan["chunks"])
            with installed(SimScheduler(Ctx(0, {}), 1, "fifo")), dask.config.set({"optimization.fuse.active": plan["fuse"]}):
                return compare.portable_outcome(*outcome(lambda: compute(case.fn(inp))))

        return forked.call(f)

    def execute(self, plan, ctx):
        import dask

        cl = Cluster(ctx, plan["size"], 3, plan["faults"], memory=plan["memory"], twice=plan["twice"])
        try:
            want = self.reference(plan)
            case = catalog.fresh(plan["op"], plan["params"])
            inp = chunk_inputs(case.inputs, plan["chunks"])
            with installed(cl), dask.config.set({"optimization.fuse.active": plan["fuse"]}):
                k, v = outcome(lambda: compute(case.fn(inp)))
        finally:
            cl.close()
        tag = f"{plan['op']} chunks={plan['chunks']} faults={plan['faults']}"
        got = compare.portable_outcome(k, v)
        if got[0] != want[0]:
            raise Violation("fails-on-cluster" if got[0] == "err" else "accepted-on-cluster", f"{tag}: in one process {short(want)}; on the cluster {short(got)}")
        if got[0] == "ok":
            tol = compare.tolerances(catalog.OPS[plan["op"]], plan["params"], case)
            d = compare.same(want[1], got[1], rtol=4e-5 if plan["params"].get("dtype") == "f4" else 1e-11, floor=tol["floor"])
            if d:
                raise Violation("differs-on-cluster", f"{tag}: {d}")
        ctx.tally("tasks", cl.tasks)
        ctx.tally("computes", cl.computes)
        ctx.tally("tasks_reexecuted", cl.reexec)
        nf = sum(v for a, v in ctx.stats.items() if a.startswith("fault_"))
        return {
            "op": plan["op"],
            "case": f"{plan['op']}|{plan['chunks']}",
            "nontrivial": bool(nf and cl.tasks >= 3 and got[0] == "ok"),
            "tasks": cl.tasks,
            "faults": nf,
        }


def short(o):
    return "a result" if o[0] == "ok" else f"{o[1]}: {o[2][:200]}"


PROP = P()
