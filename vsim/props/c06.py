"""C06: a failing read surfaces as an error, never as a wrong or missing result."""

from .. import catalog, compare, forked, storage
from ..daskexec import SimScheduler, installed
from ..inputs import compute, describe, gen_chunks, is_xr, outcome
from ..kernel import Ctx, Violation
from .base import Prop, shrink_params
from .c07 import SCALARS
from .lazy import EXCLUDED

HOWS = ["dask", "dask", "chunked", "cached", "plain"]


def gen_layout(r, op, params, hows=HOWS):
    case = catalog.fresh(op, params)
    ch = gen_chunks(r, case.inputs, max_blocks=16)
    names = [k for k, v in case.inputs.items() if is_xr(v)]
    how = r.choice(hows)
    if op in EXCLUDED and how in ("dask", "chunked"):
        how = r.choice(["cached", "plain"])
    mixed = r.random() < 0.15 and op not in EXCLUDED
    coords = r.random() < 0.4
    pick = names if r.random() < 0.6 else [r.choice(names)] if names else []
    return {
        k: {"how": r.choice(hows) if mixed else how, "chunks": ch.get(k, {}), "coords": coords}
        for k in pick
    }


def gen_labelled(r, name):
    op = catalog.OPS[name]
    for _ in range(20):
        params = op.gen(r)
        if params.get("container") not in SCALARS:
            break
    else:
        params["container"] = "xr"
    return params


class P(Prop):
    id = "C06"
    runs = {"quick": 2400, "thorough": 40000}
    rule = (
        "One run: one operation on arguments (data, coefficients, weights, non-index coordinates) that are read from"
        " simulated storage, through dask blocks or xarray's lazy backend arrays; some reads fail, once, a few times"
        " or for good, with one of eleven error kinds; the first failing read sweeps over all reads of the call and"
        " the compute. Then the storage heals and the result is computed, or the call repeated, again. Oracle: the"
        " in-memory call, and the chain of the raised error. Non-trivial: a fault was injected during call or compute;"
        " distinct by operation, layout, error kind and failing reads."
    )
    measure = "hash of reads, faults and task order"
    assumptions = ["a failing read raises; storage that silently returns wrong bytes is out of scope"]
    stub = Prop.stub + ["storage (dask sources, xarray backend arrays)"]

    def gen(self, r, i):
        names = [n for n in catalog.OPS if self.usable(n)]
        name = names[i % len(names)]
        params = gen_labelled(r, name)
        layout = gen_layout(r, name, params)
        kind = r.choice(list(storage.ERRORS))
        if kind == "type":
            # xarray itself takes a TypeError while it compares coordinates for "not equal"
            layout = {k: {**l, "coords": False} for k, l in layout.items()}
        return {
            "op": name,
            "params": params,
            "layout": layout,
            "kind": kind,
            "at": ((i // len(names)) * 0.6180339887498949) % 1.0,
            "count": r.choice([1, 1, 2, 5, 10**9]),
            "workers": r.choice([1, 2, 4]),
        }

    def usable(self, n):
        # these two take plain arrays only, and the streamfunction its own dataset class
        return n not in ("deprecated", "eofunc", "eofunc_ts", "zonal_meridional_psi", "zonal_mpsi")

    def shrink(self, plan):
        if len(plan["layout"]) > 1:
            for k in plan["layout"]:
                yield {**plan, "layout": {a: b for a, b in plan["layout"].items() if a != k}}
        for k, l in plan["layout"].items():
            for d, c in l["chunks"].items():
                if len(c) > 1:
                    yield {**plan, "layout": {**plan["layout"], k: {**l, "chunks": {**l["chunks"], d: [sum(c)]}}}}
            if l["coords"]:
                yield {**plan, "layout": {**plan["layout"], k: {**l, "coords": False}}}
        for k, v in (("workers", 1), ("count", 10**9), ("at", 0.0), ("kind", "EIO")):
            if plan[k] != v:
                yield {**plan, k: v}

    def build(self, plan, store):
        case = catalog.fresh(plan["op"], plan["params"])
        return case.fn, storage.lazy_inputs(store, case.inputs, plan["layout"])

    def reference(self, plan):
        def f():
            case = catalog.fresh(plan["op"], plan["params"])
            mem = compare.portable_outcome(*outcome(lambda: case.fn(case.inputs)))
            store = storage.Store()
            fn, inp = self.build(plan, store)
            n0 = store.reads
            with installed(SimScheduler(Ctx(0, {}), 1, "fifo")):
                k, v = outcome(lambda: fn(inp))
                at_call = store.reads
                if k == "ok":
                    k, v = outcome(lambda: fetch(v))
            return mem, compare.portable_outcome(k, v), n0, at_call, store.reads

        return forked.call(f)

    def judge(self, plan, tag, want, k, v):
        got = compare.portable_outcome(k, v)
        if want[0] == "err":
            if got[0] == "ok":
                raise Violation("result-instead-of-error", f"{tag}: without faults {want[1]}: {want[2]}; now a result")
            return
        if got[0] == "err":
            raise Violation("still-failing", f"{tag}: {got[1]}: {got[2][:200]} although storage works")
        tol = compare.tolerances(catalog.OPS[plan["op"]], plan["params"], catalog.fresh(plan["op"], plan["params"]))
        d = compare.same(want[1], got[1], **tol)
        if d:
            raise Violation("wrong-result", f"{tag}: {d}")

    def execute(self, plan, ctx):
        mem, clean, n0, at_call, total = self.reference(plan)
        tag = f"{plan['op']} on {sorted((k, l['how']) for k, l in plan['layout'].items())}"
        if mem[0] == "ok":
            if clean[0] == "err":
                raise Violation("fails-on-stored-arguments", f"{tag}: in memory fine, from storage {clean[1]}: {clean[2]}")
            tol = compare.tolerances(catalog.OPS[plan["op"]], plan["params"], catalog.fresh(plan["op"], plan["params"]))
            d = compare.same(mem[1], clean[1], **tol)
            if d:
                raise Violation("differs-on-stored-arguments", f"{tag}: {d}")
        want = mem
        store = storage.Store(ctx)
        first = n0 + int(plan["at"] * max(1, total - n0))
        store.break_reads(plan["kind"], first, plan["count"])
        sched = SimScheduler(ctx, plan["workers"], "random")
        with installed(sched):
            fn, inp = self.build(plan, store)
            stage = "call"
            v = None
            k, lazy = outcome(lambda: fn(inp))
            if k == "ok":
                stage = "compute"
                k, v = outcome(lambda: fetch(lazy))
            else:
                v = lazy
            hit = store.failed
            ctx.tally(f"faults_{plan['kind']}", hit)
            ctx.tally(f"faulted_{stage}", int(hit > 0))
            t2 = f"{tag}, {plan['kind']} at read {first} ({plan['count']} of {total})"
            if hit == 0:
                self.judge(plan, t2, want, k, v)
            elif k == "ok":
                ctx.tally("recovered_by_itself")
                if want[0] == "err":
                    raise Violation("result-instead-of-error", f"{t2}: without faults {want[1]}; with them a result")
                self.judge(plan, f"{t2}: delivered a result in spite of a fault", want, k, v)
            elif want[0] == "ok" and not storage.caused_by_fault(v):
                raise Violation(
                    "storage-error-hidden", f"{t2}: the {stage} raised {describe(v)}, without the storage error in its chain"
                )
            store.heal()
            # once the storage works: the same lazy result, then the same call
            if stage == "compute" and hit:
                k, v = outcome(lambda: fetch(lazy))
                self.judge(plan, f"{t2}: computing the same result again", want, k, v)
                ctx.tally("recomputed_after_heal")
            if hit:
                k, v = outcome(lambda: fetch(fn(inp)))
                self.judge(plan, f"{t2}: repeating the call", want, k, v)
        return {
            "op": plan["op"],
            "case": f"{plan['op']}|{plan['kind']}|{plan['count']}|{first}|{sorted((k, l['how']) for k, l in plan['layout'].items())}",
            "nontrivial": hit > 0,
            "reads": total - n0,
            "stage": stage,
        }


def fetch(v):
    """Compute and load everything of a result (also coordinates read lazily)."""
    xr = catalog._xr()
    v = compute(v)
    if isinstance(v, (xr.DataArray, xr.Dataset)):
        v = v.copy(deep=True)
        v.load()
    elif isinstance(v, (list, tuple)):
        v = type(v)(fetch(u) for u in v)
    return v


PROP = P()
