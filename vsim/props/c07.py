"""C07: concurrent calls do not affect each other."""

import warnings

from .. import catalog, compare, forked, trace
from ..daskexec import SimScheduler, ThreadScheduler, installed
from ..inputs import chunk_inputs, compute, describe, gen_chunks, outcome
from ..kernel import Ctx, Violation
from ..threads import Sim
from .base import Prop, shrink_params

OWN = "Interpolation point out of data bounds encountered"
SCALARS = ("np", "list", "float", "scalar")


def reseed(params, seed):
    return {**params, "seed": seed}


def gen_policy(r, n, i=0):
    """Preemption policy; the first pause point sweeps the lines over the runs."""
    k = r.choice(["pause", "pause", "pause", "random", "random"])
    if k == "random":
        return ["random", r.choice([0.01, 0.05, 0.2, 0.5])]
    pts = {}
    pts["0"] = [[(i * 0.6180339887498949) % 1.0, r.random()]]
    for _ in range(r.choice([0, 0, 1, 2])):
        pts.setdefault(str(r.randrange(n)), []).append([r.random(), r.random()])
    return ["pause", pts]


def resolve_policy(policy, sites):
    """Abstract pause points -> line events of the undisturbed executions."""
    if policy[0] != "pause":
        return tuple(policy)
    out = {}
    for t, pts in policy[1].items():
        s = sites[int(t)] if int(t) < len(sites) else {}
        names = list(s)
        if not names:
            continue
        for u, w in pts:
            nm = names[min(len(names) - 1, int(u * len(names)))]
            out.setdefault(t, []).append((nm, int(w * s[nm])))
    return ("pause", out)


def strict_warnings(on):
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    if on:
        warnings.filterwarnings("error", category=UserWarning)


class P(Prop):
    id = "C07"
    runs = {"quick": 2000, "thorough": 30000}
    rule = (
        "One run: 2-3 caller threads, each with one or two calls (same operation on shared inputs, same operation on"
        " different data, or different operations), in memory or lazily with 2-3 worker threads, interleaved at source"
        " lines of the library by parking threads at 1-3 chosen line events or by random preemption. Oracle: each"
        " call's outcome in a process of its own. Non-trivial: at least one preemption inside a call took place;"
        " distinct by calls and schedule signature."
    )
    measure = "hash of the sequence of (thread, source line) preemptions, switches and lock waits"
    assumptions = [
        "threads are preempted between source lines of the library, not inside third-party calls",
    ]
    stub = Prop.stub + ["thread scheduler (real threads parked at line events)", "locks created by the library (cooperative)"]

    def setup(self):
        trace.install()

    def names(self):
        return list(catalog.OPS)

    def gen_call(self, r, name, lazy):
        op = catalog.OPS[name]
        for _ in range(6):
            params = op.gen(r)
            if not lazy or params.get("container") not in SCALARS:
                break
        ch = {}
        if lazy and params.get("container") not in SCALARS:
            ch = gen_chunks(r, catalog.fresh(name, params).inputs, max_blocks=12)
        return {"op": name, "params": params, "chunks": ch}

    def gen(self, r, i):
        n = r.choice([2, 2, 2, 3])
        first = self.names()[i % len(self.names())]
        lazy = r.random() < 0.3
        if r.random() < 0.06:
            # tasks of this operation run library code in dask's worker threads
            first, lazy = "interp_hybrid_to_pressure", True
        style = r.choice(["shared", "same-op", "same-op", "same-family", "mixed"])
        c0 = self.gen_call(r, first, lazy)
        threads = [[c0]]
        for t in range(1, n):
            if style == "shared":
                threads.append([dict(c0, share=True)])
            elif style == "same-op":
                if r.random() < 0.6:
                    threads.append([dict(c0, params=reseed(c0["params"], r.randrange(10**6)))])
                else:
                    threads.append([self.gen_call(r, first, lazy)])
            elif style == "same-family":
                fam = catalog.FAMILIES[catalog.OPS[first].family]
                threads.append([self.gen_call(r, r.choice(fam), lazy)])
            else:
                threads.append([self.gen_call(r, r.choice(self.names()), lazy)])
        if r.random() < 0.2:
            threads[-1].append(dict(threads[-1][0], share=False, params=reseed(threads[-1][0]["params"], r.randrange(10**6))))
        return {
            "threads": threads,
            "style": style,
            "workers": r.choice([1, 2, 3]),
            "policy": gen_policy(r, n + (2 if lazy else 0), i // len(self.names())),
            "strict": r.random() < 0.5,
        }

    def shrink(self, plan):
        th = plan["threads"]
        for k in range(len(th)):
            if len(th) > 1:
                yield {**plan, "threads": th[:k] + th[k + 1 :]}
            if len(th[k]) > 1:
                yield {**plan, "threads": th[:k] + [th[k][:1]] + th[k + 1 :]}
        if plan["policy"][0] == "pause":
            for t, pts in plan["policy"][1].items():
                if len(pts) > 1:
                    for j in range(len(pts)):
                        q = dict(plan["policy"][1])
                        q[t] = pts[:j] + pts[j + 1 :]
                        yield {**plan, "policy": ["pause", q]}
                else:
                    q = {a: b for a, b in plan["policy"][1].items() if a != t}
                    yield {**plan, "policy": ["pause", q]}
        for k in range(len(th)):
            for j, c in enumerate(th[k]):
                for q in shrink_params(None, c["params"]):
                    if c["chunks"]:
                        break
                    c2 = dict(c, params=q, share=False)
                    yield {**plan, "threads": th[:k] + [th[k][:j] + [c2] + th[k][j + 1 :]] + th[k + 1 :]}

    # -- execution
    def one(self, call, inputs, ctx, workers):
        case = catalog.OPS[call["op"]].build(call["params"])
        return compute(case.fn(inputs))

    def make_inputs(self, call):
        case = catalog.fresh(call["op"], call["params"])
        return chunk_inputs(case.inputs, call["chunks"])

    def solo(self, plan):
        """Outcome and line events of every call, one after another, in another process."""

        def f():
            strict_warnings(plan["strict"])
            out = []
            for th in plan["threads"]:
                out.append([])
                for call in th:
                    inp = self.make_inputs(call)
                    fn = catalog.OPS[call["op"]].build(call["params"]).fn
                    rec = trace.Recorder()
                    with installed(SimScheduler(Ctx(0, {}), 1, "fifo")), trace.handling(rec):
                        k, v = outcome(lambda: compute(fn(inp)))
                    out[-1].append((compare.portable_outcome(k, v), rec.sites, rec.total))
            return out

        return forked.call(f)

    def execute(self, plan, ctx):
        refs = self.solo(plan)
        nmain = len(plan["threads"])
        sites = [r[0][1] for r in refs]
        # worker threads of lazy computes run lines of the first lazy call
        sites += [sites[0]] * 6
        total = sum(x[2] for r in refs for x in r)
        policy = resolve_policy(plan["policy"], sites)
        strict_warnings(plan["strict"])
        shared = None
        work = []
        for th in plan["threads"]:
            calls = []
            for c in th:
                if c.get("share") and shared is not None:
                    inp = shared
                else:
                    inp = self.make_inputs(c)
                    if shared is None:
                        shared = inp
                fn = catalog.OPS[c["op"]].build(c["params"]).fn
                calls.append((c, inp, fn))
            work.append(calls)

        sched = ThreadScheduler(ctx, plan["workers"])
        sim = Sim(ctx, policy, max_steps=200000 + 50 * total)

        def body(calls):
            def go():
                return [outcome(lambda: compute(fn(inp))) for _, inp, fn in calls]

            return go

        with installed(sched):
            ts = [sim.spawn(body(c)) for c in work]
            sim.run()
        for t, rs, calls in zip(ts, refs, work):
            if t.kind == "err":
                raise t.value
            for (k, v), ref, (c, _, _) in zip(t.value, rs, calls):
                got = compare.portable_outcome(k, v)
                want = ref[0]
                tag = f"{c['op']} in thread {t.tid} of {nmain}"
                if OWN in brief(want):
                    # other calls silence this warning while they interpolate, and
                    # Python's filters are process-wide
                    continue
                if got[0] != want[0] or (got[0] == "err" and got[1] != want[1]):
                    raise Violation(
                        "outcome-changed-by-concurrency",
                        f"{tag}: alone {brief(want)}, concurrently {brief(got)}",
                    )
                if got[0] == "ok":
                    d = compare.same(
                        want[1], got[1], rtol=4e-5 if c["params"].get("dtype") == "f4" else 1e-9,
                        floor=compare.tolerances(catalog.OPS[c["op"]], c["params"], catalog.fresh(c["op"], c["params"]))["floor"],
                    )
                    if d:
                        raise Violation("result-changed-by-concurrency", f"{tag}: {d}")
        ctx.tally("preemptions", sim.preempts)
        ctx.tally("lock_waits", sim.contended)
        ctx.tally("task_overlaps", sched.overlaps)
        ctx.tally("threads", sim.nthreads)
        ctx.tally("strict_warning_runs", int(plan["strict"]))
        ctx.now += sim.total
        ops = [c["op"] for th in plan["threads"] for c in th]
        return {
            "op": ops[0],
            "case": "|".join(ops),
            "nontrivial": sim.preempts > 0,
            "style": plan["style"],
            "preemptions": sim.preempts,
            "lines": sim.total,
        }


def brief(o):
    return "succeeds" if o[0] == "ok" else f"raises {o[1]}: {o[2][:120]}"


PROP = P()
