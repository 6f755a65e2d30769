"""C13: lazy results computed together, in pieces, repeatedly and in any order."""

import pickle

import numpy as np

from .. import catalog, compare, forked
from ..daskexec import SimScheduler, installed
from ..inputs import any_lazy, chunk_inputs, compute, describe, gen_chunks, is_lazy, n_blocks, outcome
from ..kernel import Ctx, Violation
from .base import Prop, shrink_params
from .c06 import gen_labelled
from .c07 import SCALARS, reseed
from .lazy import EXCLUDED

STEPS = ["together", "together", "one", "one", "subset", "piece", "persist", "pickle", "copy", "fail", "cancel", "again"]


# results of these are not lazy on this tree (still drawn as later members)
EAGER = {n for n in catalog.OPS if n.startswith("fourier") or n in ("gradient", "scale_voronoi", "max_daylight", "delta_pressure", "dpres_plev")}
# a compute per cell and level: few blocks only
SLOW = ("delta_pressure", "dpres_plev")


def vary(r, c):
    """The same data under other parameters, when the operation has any."""
    p = dict(c["params"])
    other = catalog.OPS[c["op"]].gen(r)
    keep = {"seed", "shape", "dtype", "nan", "container", "nlev", "nlat", "nlon", "nt", "nspace", "cal", "ny", "m0", "nday",
            "coords", "attrs", "perm", "layout", "nphi", "ntheta", "desc", "coord", "weights", "plev", "extrapolate", "variable"}
    ks = [k for k in p if k not in keep and k in other and other[k] != p[k]]
    for k in r.sample(ks, min(len(ks), r.choice([1, 1, 2]))):
        p[k] = other[k]
    return dict(c, params=p)


class P(Prop):
    id = "C13"
    runs = {"quick": 1200, "thorough": 30000}
    wall = {"quick": 300, "thorough": 3000}
    rule = (
        "One run: 2-4 lazy results in one process (same operation on the same data with other parameters, on other data"
        " of the same shape, or other operations), then 2-5 random steps on them: computed together in one graph, singly,"
        " in subsets, in slices, persisted, pickled, copied, computed while a random task raises or is interrupted, again."
        " Oracle: each result built and computed alone in a process of its own. Non-trivial: at least two members were"
        " lazy and computed in one graph; distinct by members, steps and schedule signature."
    )
    measure = "hash of the order in which tasks (canonical names) were started"
    assumptions = ["a result is pickled with cloudpickle, as dask's own communication does"]

    @property
    def names(self):
        return [n for n in catalog.OPS if n not in EXCLUDED and not n.startswith("zonal")]

    def gen(self, r, i):
        for _ in range(20):
            name = self.pick_op(r, [n for n in self.names if n not in EAGER], i)
            params = gen_labelled(r, name)
            chunks = gen_chunks(r, catalog.fresh(name, params).inputs, "all", max_blocks=10)
            if n_blocks(chunks) > 1:
                break
        c0 = {"op": name, "params": params, "chunks": chunks}
        members = [c0]
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < 0.4:
                members.append(vary(r, c0))
            elif k < 0.7:
                members.append(dict(c0, params=reseed(params, r.randrange(10**6))))
            else:
                fam = catalog.FAMILIES[catalog.OPS[name].family] if k < 0.9 else self.names
                n2 = r.choice([n for n in fam if n in self.names])
                p2 = gen_labelled(r, n2)
                members.append({"op": n2, "params": p2, "chunks": gen_chunks(r, catalog.fresh(n2, p2).inputs, max_blocks=2 if n2 in SLOW else 8)})
        return {
            "members": members,
            "steps": [[r.choice(STEPS), r.random(), r.random()] for _ in range(r.choice([2, 3, 4, 5]))],
            "shared": r.random() < 0.5,
            "workers": r.choice([1, 2, 4]),
            "fuse": r.random() < 0.6,
        }

    def shrink(self, plan):
        m = plan["members"]
        for k in range(len(m)):
            if len(m) > 1:
                yield {**plan, "members": m[:k] + m[k + 1 :]}
        for k in range(len(plan["steps"])):
            yield {**plan, "steps": plan["steps"][:k] + plan["steps"][k + 1 :]}
        for k, v in (("workers", 1), ("fuse", True), ("shared", False)):
            if plan[k] != v:
                yield {**plan, k: v}

    def inputs(self, c):
        case = catalog.fresh(c["op"], c["params"])
        return case.fn, {
            k: v for k, v in chunk_inputs(case.inputs, {
                k: {d: x for d, x in ch.items() if k in case.inputs} for k, ch in c["chunks"].items() if fits(case.inputs.get(k), ch)
            }).items()
        }

    def reference(self, plan):
        import dask

        out = []
        for c in plan["members"]:
            def f(c=c):
                fn, inp = self.inputs(c)
                with installed(SimScheduler(Ctx(0, {}), 1, "fifo")), dask.config.set({"optimization.fuse.active": plan["fuse"]}):
                    return compare.portable_outcome(*outcome(lambda: compute(fn(inp))))

            out.append(forked.call(f))
        return out

    def execute(self, plan, ctx):
        import dask

        want = self.reference(plan)
        crash = {"at": None, "n": 0, "exc": None}

        def hook(name, node, data, run):
            if crash["at"] is not None:
                crash["n"] += 1
                if crash["n"] > crash["at"]:
                    crash["at"] = None
                    raise crash["exc"]
            return node(data)

        sched = SimScheduler(ctx, plan["workers"], "random", hook)
        together = 0
        with installed(sched), dask.config.set({"optimization.fuse.active": plan["fuse"]}):
            made, tags, wants = [], [], []
            share = {}
            for j, c in enumerate(plan["members"]):
                fn, inp = self.inputs(c)
                if plan["shared"]:
                    key = repr((c["op"], c["params"].get("seed"), sorted(inp)))
                    old = share.setdefault(key, inp)
                    # the same argument objects, when they hold the same values
                    for k in inp:
                        if old is not inp and compare_inputs(old[k], inp[k]):
                            inp[k] = old[k]
                k, v = outcome(lambda: fn(inp))
                if want[j][0] == "err":
                    if k == "ok":
                        k, v = outcome(lambda: compute(v))
                        if k == "ok":
                            raise Violation("accepted-in-group", f"{c['op']}: alone {want[j][1]}; after others a result")
                    continue
                if k == "err":
                    raise Violation("fails-in-group", f"{c['op']}: alone fine; after others {describe(v)}")
                made.append(v)
                tags.append(f"{c['op']} (member {j} of {[m['op'] for m in plan['members']]})")
                wants.append((c, want[j][1]))
            cur = list(made)
            lazies = [j for j in range(len(made)) if any_lazy_deep(made[j])]
            for what, u, w in plan["steps"] + [["together", 0.3, 0.3]]:
                if not cur:
                    break
                j = min(len(cur) - 1, int(u * len(cur)))
                ctx.event("step", what, j)
                ctx.tally(f"step_{what}")
                if what in ("together", "again", "subset"):
                    sel = list(range(len(cur)))
                    if what == "subset":
                        sel = sel[j:] if w < 0.5 else sel[: j + 1]
                    if w < 0.5:
                        sel = sel[::-1]
                    res = dask.compute(*[cur[q] for q in sel])
                    together += len([q for q in sel if q in lazies]) > 1
                    for q, v in zip(sel, res):
                        self.judge(f"{tags[q]} computed together with {len(sel) - 1} others", wants[q], v)
                elif what == "one":
                    self.judge(f"{tags[j]} computed", wants[j], compute(cur[j]))
                elif what == "persist":
                    res = dask.persist(*cur)
                    cur = list(res)
                    for q in range(len(cur)):
                        self.judge(f"{tags[q]} persisted", wants[q], compute(cur[q]))
                    together += len(lazies) > 1
                elif what == "pickle":
                    import cloudpickle

                    try:
                        b = cloudpickle.dumps(cur[j])
                    except Exception as e:
                        raise Violation("not-serialisable", f"{tags[j]}: {describe(e)}")
                    cur[j] = pickle.loads(b)
                elif what == "copy":
                    xr = catalog._xr()
                    if isinstance(cur[j], (xr.DataArray, xr.Dataset)):
                        cur[j] = cur[j].copy(deep=w < 0.5)
                elif what == "piece":
                    v = cur[j]
                    xr = catalog._xr()
                    if isinstance(v, xr.DataArray) and v.ndim and v.shape[0] > 1:
                        d = v.dims[int(w * v.ndim) % v.ndim]
                        n = v.sizes[d]
                        if n > 1:
                            sl = {d: slice(int(w * n), int(w * n) + 1 + n // 2)}
                            others = [cur[q] for q in range(len(cur)) if q != j]
                            got = dask.compute(v.isel(sl), *others)[0]
                            e = portable_isel(wants[j][1], d, sl[d])
                            self.judge(f"{tags[j]} in a piece {sl}", (wants[j][0], e), got)
                elif what in ("fail", "cancel"):
                    crash.update(at=int(w * 12), n=0, exc=RuntimeError("simulated task failure") if what == "fail" else KeyboardInterrupt())
                    try:
                        dask.compute(*cur)
                    except (RuntimeError, KeyboardInterrupt):
                        ctx.tally("computes_spoiled")
                    crash["at"] = None
        return {
            "op": plan["members"][0]["op"],
            "case": "|".join(c["op"] for c in plan["members"]) + ">" + ",".join(s[0] for s in plan["steps"]),
            "nontrivial": together > 0 and len(lazies) > 1,
            "tasks": sched.tasks,
        }

    def judge(self, tag, want, v):
        c, ref = want
        op = catalog.OPS[c["op"]]
        tol = compare.tolerances(op, c["params"], catalog.fresh(c["op"], c["params"]))
        f4 = c["params"].get("dtype") == "f4"
        d = compare.same(ref, compare.portable(v), rtol=4e-5 if f4 else 1e-9, floor=max(tol["floor"], biggest(ref)))
        if d:
            raise Violation("wrong-in-group", f"{tag}: {d}")


def biggest(ref):
    if isinstance(ref, dict) and "values" in ref and isinstance(ref["values"], np.ndarray) and ref["values"].dtype.kind == "f":
        a = ref["values"][np.isfinite(ref["values"])]
        return float(np.max(np.abs(a))) if a.size else 0.0
    return 0.0


def portable_isel(p, d, sl):
    """Slice a portable DataArray record."""
    q = dict(p)
    ax = p["dims"].index(d)
    q["values"] = p["values"][(slice(None),) * ax + (sl,)]
    q["coords"] = {}
    for k, c in p["coords"].items():
        if d in c["dims"]:
            a = c["dims"].index(d)
            c = dict(c, values=c["values"][(slice(None),) * a + (sl,)])
        q["coords"][k] = c
    return q


def fits(v, ch):
    if v is None or not hasattr(v, "sizes"):
        return False
    return all(d in v.sizes and sum(c) == v.sizes[d] for d, c in ch.items())


def compare_inputs(a, b):
    try:
        return compare.digest(compute(a)) == compare.digest(compute(b))
    except Exception:
        return False


def any_lazy_deep(v):
    return any_lazy(v)


PROP = P()
