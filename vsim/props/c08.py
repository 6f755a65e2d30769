"""C08: inputs are never modified."""

from .. import catalog, compare, forked, trace
from ..daskexec import SimScheduler, ThreadScheduler, installed
from ..dress import FORMS, damage, dress
from ..inputs import chunk_inputs, compute, describe, gen_chunks, outcome
from ..kernel import Ctx, Violation
from ..threads import Sim
from .base import Prop, shrink_params
from .c07 import SCALARS, gen_policy, resolve_policy

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "OSError": OSError}


def gen_single(prop, r, i, lazy_p=0.3, names=None):
    """One call, possibly on chunked data."""
    names = names or list(catalog.OPS)
    name = names[i % len(names)]
    op = catalog.OPS[name]
    lazy = r.random() < lazy_p
    for _ in range(6):
        params = op.gen(r)
        if not lazy or params.get("container") not in SCALARS:
            break
    ch = {}
    if lazy and params.get("container") not in SCALARS:
        ch = gen_chunks(r, catalog.fresh(name, params).inputs, max_blocks=20)
    return {"op": name, "params": params, "chunks": ch}


def resolve_site(sites, u, w):
    names = list(sites)
    if not names:
        return None
    nm = names[min(len(names) - 1, int(u * len(names)))]
    return nm, int(w * sites[nm])


class P(Prop):
    id = "C08"
    runs = {"quick": 3200, "thorough": 40000}
    rule = (
        "One run: one operation on arguments in a random form (plain, strided view or slice of a larger array,"
        " Fortran order, reversed strides, read-only, rich metadata, chunked), which returns, fails, is computed lazily, runs beside"
        " another call, or is cut short by KeyboardInterrupt/MemoryError/OSError at a source line chosen from those"
        " it executes (the chosen line sweeps over all of them across runs); a quarter of the runs make the same call on"
        " all forms in turn, labelled and plain. Oracle: digests of all arguments and"
        " of the arrays they are views of, before, during (at line events) and after. Non-trivial: the fault fired,"
        " or observations were made while the call was inside the library; distinct by operation, form, ending and line."
    )
    measure = "hash of the (line, ending, preemption) events of a run"
    assumptions = [
        "asynchronous exceptions arrive between source lines of the library, not inside its clean-up code",
        "the calls of third-party libraries are not cut short half-way",
    ]
    stub = Prop.stub + ["thread scheduler for the overlapping runs", "source of asynchronous exceptions"]

    def setup(self):
        trace.install()

    def gen(self, r, i):
        c = gen_single(self, r, i)
        k = i // len(catalog.OPS)
        end = r.choice(["normal", "watched", "inject", "inject", "inject", "thread", "forms", "forms"])
        if end == "forms":
            c["chunks"] = {}
        plan = {
            **c,
            "form": r.choice(FORMS),
            "rich": r.random() < 0.6,
            "ending": end,
            "at": [(k * 0.6180339887498949) % 1.0, r.random()],
            "exc": r.choice(list(EXC)),
            "workers": r.choice([1, 2, 3]),
            "more": [[r.random(), r.random()] for _ in range(4 if end == "inject" else 0)],
            "bad": r.choice([None, None, None, None, 0, 1, 2, 3]) if end != "forms" else None,
            "policy": gen_policy(r, 2, k),
        }
        return plan

    def shrink(self, plan):
        for k, v in (("form", "plain"), ("rich", False), ("ending", "normal"), ("chunks", {}), ("workers", 1), ("more", []), ("bad", None)):
            if plan[k] != v:
                yield {**plan, k: v}
        for q in shrink_params(None, plan["params"]):
            if not plan["chunks"]:
                yield {**plan, "params": q}

    def prepare(self, plan):
        case = catalog.fresh(plan["op"], plan["params"])
        d = dress(case.inputs, plan["form"], plan["rich"])
        base = d
        inp = d.inputs
        if plan["chunks"]:
            inp = chunk_inputs(d.inputs, plan["chunks"])
            for k, v in inp.items():
                if v is not d.inputs.get(k):
                    d.owned.append((f"chunked {k}", v))
        if plan.get("bad") is not None:
            was = inp
            inp = damage(inp, plan["bad"])
            for k, v in inp.items():
                if v is not was[k]:
                    d.owned.append((f"{k} (of another shape or kind)", v))
        return case.fn, inp, base

    def reference(self, plan):
        def f():
            fn, inp, _ = self.prepare({**plan, "form": "plain"})
            rec = trace.Recorder()
            with installed(SimScheduler(Ctx(0, {}), 1, "fifo")), trace.handling(rec):
                k, v = outcome(lambda: compute(fn(inp)))
            return k, describe(v) if k == "err" else "", rec.inj, rec.sites

        return forked.call(f)

    def check(self, plan, d, before, when):
        for (n, a, fl), (_, b, fl2) in zip(before, d.digests()):
            if a != b or fl != fl2:
                raise Violation(
                    "input-modified",
                    f"{plan['op']}: argument {n} was changed ({when}; form {plan['form']})",
                )

    def forms(self, plan, ctx):
        """The same call on every form of its arguments, in every container."""
        ran = 0
        cs = [plan["params"].get("container")]
        if cs[0] is not None and cs[0] != "ds":
            cs += [c for c in ("np", "xr") if c != cs[0]]
        for c in cs:
            q = {**plan, "params": {**plan["params"], "container": c}} if c is not None else plan
            ok = None
            for form in ["plain", "view", "slice", "fortran", "readonly", "reversed"]:
                q = {**q, "form": form}
                try:
                    fn, inp, d = self.prepare(q)
                except Exception:
                    break
                before = d.digests()
                k, v = outcome(lambda: fn(inp))
                self.check(q, d, before, f"after the call, which {'returned' if k == 'ok' else 'raised ' + describe(v)}")
                if form == "plain":
                    ok = k == "ok"
                elif ok and k == "err":
                    raise Violation(
                        "form-not-accepted",
                        f"{plan['op']}: works on plain arrays, but on form {form!r} raises {describe(v)}",
                    )
                ran += 1
                ctx.sched("form", c, form, k)
                ctx.tally(f"form_{form}")
        return {
            "op": plan["op"],
            "case": f"{plan['op']}|forms|{plan['params'].get('container')}",
            "nontrivial": ran > 1,
            "ending": "forms",
            "outcome": "ok" if ok else "err",
        }

    def execute(self, plan, ctx):
        if plan["ending"] == "forms":
            return self.forms(plan, ctx)
        rk, rmsg, inj, sites = self.reference(plan)
        fn, inp, d = self.prepare(plan)
        before = d.digests()
        end = plan["ending"]
        fired, looks = False, 0
        if end == "thread":
            other = dict(plan, form="plain")
            fn2, inp2, d2 = self.prepare(other)
            sched = ThreadScheduler(ctx, plan["workers"])
            seen = []

            def look(sim):
                seen.append(1)
                self.check(plan, d, before, "seen by another thread during the call")

            sim = Sim(ctx, resolve_policy(plan["policy"], [sites, sites]), watch=look)
            with installed(sched):
                a = sim.spawn(lambda: outcome(lambda: compute(fn(inp))))
                sim.spawn(lambda: outcome(lambda: compute(fn2(inp2))))
                sim.run()
            k, v = a.value if a.kind == "ok" else ("err", a.value)
            looks = len(seen)
            ctx.tally("observations_from_another_thread", looks)
        else:
            for u, x in plan["more"] if end == "inject" else ():
                at = resolve_site(inj, u, x)
                if not at:
                    break
                h = trace.Injector(at[0], at[1], EXC[plan["exc"]]("simulated"))
                ctx.sched("inject", at, plan["exc"])
                fn2, inp2, d2 = self.prepare(plan)
                b2 = d2.digests()
                with installed(SimScheduler(ctx, plan["workers"], "random")), trace.handling(h):
                    try:
                        k, v = outcome(lambda: compute(fn2(inp2)))
                    except KeyboardInterrupt as e:
                        k, v = "err", e
                ctx.tally(f"injected_{plan['exc']}", int(h.fired))
                self.check(plan, d2, b2, f"after a call cut short at {h.where}" if h.fired else "after the call")
            handler = None
            if end == "inject":
                at = resolve_site(inj, *plan["at"])
                if at:
                    handler = trace.Injector(at[0], at[1], EXC[plan["exc"]]("simulated"))
                    ctx.sched("inject", at, plan["exc"])
            elif end == "watched":
                every = max(1, sum(sites.values()) // 25)
                cnt = [0]

                def handler(code, line):
                    cnt[0] += 1
                    if cnt[0] % every == 0:
                        cnt.append(1)
                        self.check(plan, d, before, f"during the call at {trace.site(code, line)}")

            with installed(SimScheduler(ctx, plan["workers"], "random")), trace.handling(handler):
                try:
                    k, v = outcome(lambda: compute(fn(inp)))
                except KeyboardInterrupt as e:
                    k, v = "err", e
            if end == "inject" and handler is not None:
                fired = handler.fired
                ctx.tally(f"injected_{plan['exc']}", int(fired))
            elif end == "watched":
                looks = len(cnt) - 1
                ctx.tally("observations_during_call", looks)
        self.check(plan, d, before, f"after the call, which {'returned' if k == 'ok' else 'raised ' + describe(v)}")
        if not fired and rk == "ok" and k == "err":
            raise Violation(
                "form-not-accepted",
                f"{plan['op']}: works on plain arrays, but on form {plan['form']!r} raises {describe(v)}",
            )
        ctx.tally(f"form_{plan['form']}")
        ctx.tally(f"ended_by_{'return' if k == 'ok' else 'exception'}")
        return {
            "op": plan["op"],
            "case": f"{plan['op']}|{plan['form']}|{end}|{plan['params'].get('container')}",
            "nontrivial": bool(fired or looks or (plan["chunks"] and k == "ok")),
            "ending": end,
            "outcome": k,
        }


PROP = P()
