"""C10: a call does not depend on what was called before it."""

import numpy as np

from .. import catalog, compare, forked, trace
from ..daskexec import SimScheduler, installed
from ..dress import damage
from ..inputs import any_lazy, chunk_inputs, compute, describe, gen_chunks, outcome
from ..kernel import Ctx, Violation
from .base import Prop, shrink_params
from .c07 import SCALARS, reseed
from .c08 import EXC, resolve_site

ENDS = ["plain", "plain", "plain", "inject", "inject", "abandon", "late", "bad"]
AFTER = ["keep", "keep", "drop", "spoil-result", "spoil-arguments", "spoil-both"]


# looked at more often: many options
RICH = [
    "climatology_average", "climatology_average", "climate_anomaly", "interp_hybrid_to_pressure", "interp_multidim",
    "fourier_filter", "zonal_meridional_psi", "month_to_season", "max_daylight", "delta_pressure",
]


def gen_call(r, name, lazy):
    op = catalog.OPS[name]
    for _ in range(6):
        params = op.gen(r)
        if not lazy or params.get("container") not in SCALARS:
            break
    ch = {}
    if lazy and params.get("container") not in SCALARS:
        ch = gen_chunks(r, catalog.fresh(name, params).inputs, max_blocks=12)
    return {"op": name, "params": params, "chunks": ch}


def overwrite(a):
    """The caller writes into what it owns; what cannot be written is left alone."""
    xr = catalog._xr()
    if isinstance(a, np.ndarray):
        try:
            a[...] = 7
        except (ValueError, TypeError):
            pass
    elif isinstance(a, xr.DataArray):
        if isinstance(a.variable._data, np.ndarray):
            overwrite(a.variable._data)
        a.attrs["spoiled"] = 1
        for k in list(a.attrs):
            if isinstance(a.attrs[k], (np.ndarray, list)):
                overwrite(a.attrs[k])
        for k in list(a.coords):
            c = a.coords[k]
            c.attrs["spoiled"] = 1
            if k in a.dims:
                v = c.variable.values
                base = v
                for _ in range(3):
                    overwrite(base)
                    base = getattr(base, "base", None)
                    if not isinstance(base, np.ndarray):
                        break
            else:
                overwrite(c.variable._data)
    elif isinstance(a, xr.Dataset):
        a.attrs["spoiled"] = 1
        for k in list(a.data_vars):
            overwrite(a[k])
    elif isinstance(a, list):
        if a and isinstance(a[0], list):
            for x in a:
                overwrite(x)
        else:
            for j in range(len(a)):
                if isinstance(a[j], float):
                    a[j] = 7.0
    elif isinstance(a, dict):
        for v in a.values():
            overwrite(v)
    elif isinstance(a, tuple):
        for v in a:
            overwrite(v)


def refill(old, new):
    """Write new's values into old's memory; True if old now equals new."""
    xr = catalog._xr()
    if isinstance(old, np.ndarray) and isinstance(new, np.ndarray):
        if old.shape == new.shape and old.dtype == new.dtype and old.flags.writeable and old.dtype.kind != "O":
            old[...] = new
            return True
        return False
    if isinstance(old, xr.DataArray) and isinstance(new, xr.DataArray):
        return isinstance(old.variable._data, np.ndarray) and refill(old.variable._data, new.variable._data)
    return False


def nudge(a, how, k):
    """Nearly the same values: one cell moved, two swapped, all scaled."""
    if not isinstance(a, np.ndarray) or a.dtype.kind not in "fc" or not a.size:
        return a
    b = a.copy()
    flat = b.reshape(-1)
    n = flat.size
    j = k % max(1, n - 2) + (1 if n > 2 else 0)
    if how == "one":
        flat[j] = flat[j] * 1.01 + (0.01 if flat[j] == 0 else 0)
    elif how == "swap" and n > 1:
        i = j - 1 if j else j + 1
        flat[i], flat[j] = flat[j].copy(), flat[i].copy()
    elif how == "scale":
        flat *= 0.995
    elif how == "nan":
        flat[j] = np.nan
    return b


def vary(inputs, spec):
    """The same arguments but for one of them, which differs a little."""
    xr = catalog._xr()
    names = [n for n, v in inputs.items() if isinstance(v, (np.ndarray, xr.DataArray, xr.Dataset))]
    if not names:
        return inputs
    out = dict(inputs)
    n = names[spec["k"] % len(names)]
    v, how = out[n], spec["how"]
    if isinstance(v, np.ndarray):
        out[n] = nudge(v, how, spec["j"])
        return out
    if isinstance(v, xr.Dataset):
        m = sorted(map(str, v.data_vars))[spec["j"] % len(v.data_vars)]
        if isinstance(v[m].variable._data, np.ndarray):
            v = v.copy()
            v[m] = v[m].copy(data=nudge(v[m].variable._data, how, spec["j"]))
            out[n] = v
        return out
    if how == "coord":
        cs = sorted(str(c) for c in v.coords if v[c].dtype.kind == "f" and v[c].size > 2)
        if cs:
            c = cs[spec["j"] % len(cs)]
            x = np.array(v[c].values)
            f = x.reshape(-1)
            i = spec["j"] % (f.size - 2) + 1
            f[i] = 0.75 * f[i] + 0.25 * f[i + 1]
            out[n] = v.assign_coords({c: (v[c].dims, x, dict(v[c].attrs))})
        return out
    if how == "attrs":
        out[n] = v.assign_attrs(extra=spec["j"])
    elif isinstance(v.variable._data, np.ndarray):
        out[n] = v.copy(data=nudge(v.variable._data, how, spec["j"]))
    return out


def tweak(r, params, other, n):
    """The same parameters but for a few."""
    ks = [k for k in params if k in other and other[k] != params[k] and k not in ("container", "seed")]
    return {**params, **{k: other[k] for k in r.sample(ks, min(n, len(ks)))}}


def twin(o, v):
    """Is the caller's object, with the new values in it, the new argument?"""
    try:
        return type(o) is type(v) and o.identical(v) and list(o.coords) == list(v.coords) and o.encoding == v.encoding
    except Exception:
        return False


class P(Prop):
    id = "C10"
    runs = {"quick": 2400, "thorough": 40000}
    rule = (
        "One run: a history of 1-6 calls (same operation on other data of the same shape, with a parameter changed, with one"
        " argument slightly changed, same family, or any), each"
        " returning, failing, cut short at a swept source line, left uncomputed, or computed only at the end; after"
        " each the caller may drop or overwrite its arguments and the result; arguments may be reused in place with"
        " new values. Then the last call. Oracle: the last call in a fresh process; digests of all results kept from"
        " before. Non-trivial: at least one earlier call ran to an end in the library; distinct by history and endings."
    )
    measure = "hash of the history (operations, endings, lines cut short, task order)"
    assumptions = ["the caller does not write to an argument between building a lazy result and computing it"]
    stub = Prop.stub + ["source of asynchronous exceptions"]

    def setup(self):
        trace.install()

    def gen(self, r, i):
        all_ops = list(catalog.OPS)
        turn = all_ops + RICH
        name = turn[i % len(turn)]
        target = gen_call(r, name, r.random() < 0.35)
        hist = []
        for _ in range(r.choice([1, 1, 2, 3, 4, 6])):
            k = r.random()
            lazy = r.random() < 0.35
            if k < 0.12:
                c = dict(target)  # the very same call
            elif k < 0.28:
                c = dict(target, params=reseed(target["params"], r.randrange(10**6)))
            elif k < 0.44:
                q = tweak(r, target["params"], catalog.OPS[name].gen(r), r.choice([1, 1, 2]))
                c = dict(target, params=q)
                if target["chunks"]:
                    c["chunks"] = gen_chunks(r, catalog.fresh(name, q).inputs, max_blocks=12)
            elif k < 0.58:
                how = r.choice(["one", "swap", "scale", "nan", "coord", "attrs"])
                c = dict(target, vary={"k": r.randrange(60), "j": r.randrange(1000), "how": how})
            elif k < 0.68:
                c = gen_call(r, name, lazy)
            elif k < 0.85:
                c = gen_call(r, r.choice(catalog.FAMILIES[catalog.OPS[name].family]), lazy)
            else:
                c = gen_call(r, r.choice(all_ops), lazy)
            hist.append({
                **c,
                "end": r.choice(ENDS),
                "after": r.choice(AFTER),
                "at": [((i // len(all_ops)) * 0.6180339887498949) % 1.0, r.random()],
                "exc": r.choice(list(EXC)),
                "bad": r.randrange(4),
            })
        one = self.other_option(r, i, target)
        if one and r.random() < 0.7:
            # the same call but for one option, which takes its turn; cut short at several places, or not
            hist.insert(r.randrange(len(hist) + 1), {
                **one, "end": r.choice(["plain", "inject"]), "after": r.choice(AFTER), "cuts": 4,
                "at": [r.random(), r.random()], "exc": r.choice(list(EXC)), "bad": 0,
            })
            del hist[6:]
        reuse = r.random() < 0.4
        if r.random() < 0.2:
            # the caller changes one of its arrays in place and calls again
            reuse = True
            for _ in range(3):
                if target["params"].get("container") in (None, "np"):
                    break
                target = gen_call(r, name, False)
            target = dict(target, chunks={})
            how = r.choice(["one", "swap", "scale", "nan", "coord"])
            hist = [h for h in hist if h["op"] != name][:1] + [{
                **target, "vary": {"k": r.randrange(60), "j": r.randrange(1000), "how": how},
                "end": r.choice(["plain", "plain", "plain", "abandon", "bad"]), "after": "drop",
                "at": [0.0, 0.0], "exc": "MemoryError", "bad": r.randrange(4),
            }]
        return {
            "history": hist,
            "target": target,
            "reuse": reuse,
            "workers": r.choice([1, 2, 3]),
        }

    def other_option(self, r, i, target):
        q = target["params"]
        ks = sorted(k for k in q if k not in ("container", "seed"))
        if not ks:
            return None
        k = ks[i * 7919 % 10007 % len(ks)]
        for _ in range(12):
            o = catalog.OPS[target["op"]].gen(r)
            if k in o and o[k] != q[k]:
                c = dict(target, params={**q, k: o[k]})
                if target["chunks"]:
                    c["chunks"] = gen_chunks(r, catalog.fresh(c["op"], c["params"]).inputs, max_blocks=12)
                return c
        return None

    def shrink(self, plan):
        h = plan["history"]
        for k in range(len(h)):
            if len(h) > 1:
                yield {**plan, "history": h[:k] + h[k + 1 :]}
        for k in range(len(h)):
            for a, b in (("end", "plain"), ("after", "drop"), ("chunks", {})):
                if h[k][a] != b:
                    yield {**plan, "history": h[:k] + [dict(h[k], **{a: b})] + h[k + 1 :]}
        for a, b in (("reuse", False), ("workers", 1)):
            if plan[a] != b:
                yield {**plan, a: b}
        if plan["target"]["chunks"]:
            yield {**plan, "target": dict(plan["target"], chunks={})}

    def make(self, c):
        case = catalog.fresh(c["op"], c["params"])
        return case.fn, vary(case.inputs, c["vary"]) if c.get("vary") else case.inputs

    def reference(self, plan):
        """Last call (and calls computed late) in a fresh process."""

        def one(c):
            fn, inp = self.make(c)
            inp = chunk_inputs(inp, c["chunks"])
            with installed(SimScheduler(Ctx(0, {}), 1, "fifo")):
                return compare.portable_outcome(*outcome(lambda: compute(fn(inp))))

        return forked.call(lambda: one(plan["target"])), [
            forked.call(lambda c=c: one(c)) if c["end"] == "late" else None for c in plan["history"]
        ]

    def sites(self, c):
        def f():
            fn, inp = self.make(c)
            inp = chunk_inputs(inp, c["chunks"])
            rec = trace.Recorder()
            with installed(SimScheduler(Ctx(0, {}), 1, "fifo")), trace.handling(rec):
                outcome(lambda: compute(fn(inp)))
            return rec.inj

        return forked.call(f)

    def judge(self, tag, want, k, v, op, params):
        got = compare.portable_outcome(k, v)
        if got[0] != want[0] or (got[0] == "err" and got[1] != want[1]):
            raise Violation(
                "outcome-depends-on-history",
                f"{tag}: in a fresh process {brief(want)}, here {brief(got)}",
            )
        if got[0] == "ok":
            tol = compare.tolerances(catalog.OPS[op], params, catalog.fresh(op, params))
            d = compare.same(want[1], got[1], rtol=4e-5 if params.get("dtype") == "f4" else 1e-11, floor=tol["floor"])
            if d:
                raise Violation("result-depends-on-history", f"{tag}: {d}")

    def execute(self, plan, ctx):
        want, late_want = self.reference(plan)
        sched = SimScheduler(ctx, plan["workers"], "random")
        kept, late, reusable = [], [], None
        ends = []
        finished = 0
        with installed(sched):
            for j, c in enumerate(plan["history"]):
                fn, raw = self.make(c)
                inp = chunk_inputs(raw, c["chunks"])
                end = c["end"]
                ctx.sched("call", c["op"], end)
                handler = None
                if end == "inject":
                    sites = self.sites(c)
                    for cut in range(1, c.get("cuts", 1)):
                        # the same call, cut short somewhere else before
                        at = resolve_site(sites, (c["at"][0] + cut * 0.6180339887498949) % 1.0, c["at"][1])
                        if at:
                            ctx.sched("inject", at, c["exc"])
                            with trace.handling(trace.Injector(at[0], at[1], EXC[c["exc"]]("simulated"))):
                                try:
                                    outcome(lambda: compute(fn(chunk_inputs(self.make(c)[1], c["chunks"]))))
                                except KeyboardInterrupt:
                                    pass
                            ctx.tally("injected")
                    at = resolve_site(sites, *c["at"])
                    if at:
                        handler = trace.Injector(at[0], at[1], EXC[c["exc"]]("simulated"))
                        ctx.sched("inject", at, c["exc"])
                if end == "bad":
                    inp = damage(inp, c["bad"])
                with trace.handling(handler):
                    try:
                        if end in ("abandon", "late"):
                            k, v = outcome(lambda: fn(inp))
                        else:
                            k, v = outcome(lambda: compute(fn(inp)))
                    except KeyboardInterrupt as e:
                        k, v = "err", e
                ends.append(f"{c['op']}:{end}:{k}")
                ctx.tally(f"history_{end}_{k}")
                finished += 1
                if handler is not None:
                    ctx.tally("injected", int(handler.fired))
                if end == "late":
                    late.append((j, c, k, v))
                    continue
                after = c["after"]
                if end == "abandon" and after != "drop":
                    after = "drop" if k == "ok" else after
                if k == "ok" and after == "keep":
                    kept.append((f"{c['op']} (call {j})", v, compare.digest(v)))
                if k == "ok" and after in ("spoil-result", "spoil-both"):
                    overwrite(v)
                if after in ("spoil-arguments", "spoil-both"):
                    overwrite(raw)
                if after != "keep" and c["op"] == plan["target"]["op"]:
                    reusable = raw
                ctx.tally(f"caller_{after}")
                del v, inp, raw
            t = plan["target"]
            fn, raw = self.make(t)
            reused = 0
            if plan["reuse"] and reusable is not None:
                # the caller fills its arrays with new values and calls again
                for k, v in list(raw.items()):
                    o = reusable.get(k)
                    if isinstance(o, np.ndarray) and refill(o, v):
                        raw[k] = o
                        reused += 1
                    elif refill(o, v):
                        raw[k] = o if twin(o, v) else v.copy(deep=False, data=o.variable._data)
                        reused += 1
            inp = chunk_inputs(raw, t["chunks"])
            ctx.sched("target", t["op"])
            k, v = outcome(lambda: compute(fn(inp)))
            self.judge(f"{t['op']} after {ends}", want, k, v, t["op"], t["params"])
            # an immediate repetition, in memory of its own
            overwrite(v) if k == "ok" else None
            fn, raw = self.make(t)
            inp = chunk_inputs(raw, t["chunks"])
            k, v = outcome(lambda: compute(fn(inp)))
            self.judge(f"{t['op']} repeated after {ends}", want, k, v, t["op"], t["params"])
            for j, c, k, v in late:
                if k == "ok":
                    k, v = outcome(lambda: compute(v))
                self.judge(f"{c['op']} computed after later calls", late_want[j], k, v, c["op"], c["params"])
        for n, v, d in kept:
            if compare.digest(v) != d:
                raise Violation("earlier-result-changed", f"the result of {n} was changed by {ends} and {t['op']}")
        ctx.tally("arrays_reused_in_place", reused)
        ctx.tally("results_rechecked", len(kept) + len(late))
        ctx.tally("tasks", sched.tasks)
        return {
            "op": t["op"],
            "case": "|".join(ends) + ">" + t["op"],
            "nontrivial": finished > 0,
            "history": len(ends),
        }


def brief(o):
    return "succeeds" if o[0] == "ok" else f"raises {o[1]}: {o[2][:120]}"


PROP = P()
