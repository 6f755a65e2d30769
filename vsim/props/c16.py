"""C16: a process forked at any moment can use the library."""

import traceback

from .. import catalog, compare, forked, locks, trace
from ..daskexec import SimScheduler, ThreadScheduler, installed
from ..inputs import compute, outcome
from ..kernel import Ctx, Inconclusive, Violation
from ..threads import Sim
from . import c07
from .c07 import OWN, reseed, resolve_policy, strict_warnings
from .c14 import EXC, MARK, attempt
from .c08 import resolve_site

HANG = 90.0


def in_child(f):
    """f in a child process in which only the calling thread exists."""

    def g():
        locks.current = None
        trace.handler = None
        locks.alone = True
        try:
            return ("done", f())
        except locks.Orphaned as e:
            where = [x for x in traceback.extract_tb(e.__traceback__) if x.filename.startswith(locks.PREFIX)]
            return ("orphan", e.own, f"{where[-1].name} ({where[-1].line})" if where else "?")

    return forked.call(g, timeout=HANG)


class P(c07.P):
    id = "C16"
    runs = {"quick": 1100, "thorough": 30000}
    rule = (
        "One run: a process that has made up to two calls (finished, failed or cut short at a source line) and has 0-3"
        " threads inside calls, parked at seeded source lines of the library, is forked at up to three such moments; each"
        " child, which has only the forking thread, makes one or two calls of the same or other operations, in memory or"
        " lazily. Oracle: each call's outcome in a fresh process, for the children and for the parent's own threads; a child"
        " that waits for a lock whose holder exists only in the parent, or that does not finish, is a violation. Non-trivial:"
        " a fork took place while a thread was inside a call, or after a history; distinct by calls, lines and moments."
    )
    measure = "hash of preemptions, switches, moments of forking and calls of the children"
    assumptions = [
        "no fork while a thread is inside a `warnings.catch_warnings` of another library or holds a lock of one",
    ]
    stub = c07.P.stub + ["child processes are real forks, with locks that report a vanished holder"]

    def gen(self, r, i):
        q = super().gen(r, i)
        if r.random() < 0.2:
            q["threads"] = []
        kids = []
        first = self.names()[i % len(self.names())]
        for _ in range(r.choice([1, 1, 2])):
            base = r.choice(q["threads"])[0] if q["threads"] else None
            if base and r.random() < 0.6:
                kids.append(dict(base, share=False, params=reseed(base["params"], r.randrange(10**6))))
            else:
                kids.append(self.gen_call(r, first if r.random() < 0.5 else r.choice(self.names()), r.random() < 0.4))
        hist = []
        for _ in range(r.choice([1, 2]) if not q["threads"] else r.choice([0, 0, 1])):
            c = r.choice(kids)
            hist.append({**(c if r.random() < 0.6 else self.gen_call(r, r.choice(self.names()), False)),
                         "end": r.choice(["plain", "plain", "inject"]), "at": [r.random(), r.random()], "exc": r.choice(list(EXC))})
        return {**q, "kids": kids, "history": hist, "forks": r.choice([1, 2, 3]), "skip": r.choice([0, 0, 0, 1, 2, 3])}

    def shrink(self, plan):
        for q in super().shrink(plan):
            yield q
        for k in range(len(plan["kids"])):
            if len(plan["kids"]) > 1:
                yield {**plan, "kids": plan["kids"][:k] + plan["kids"][k + 1 :]}
        if plan["history"]:
            yield {**plan, "history": []}
        if plan["threads"]:
            yield {**plan, "threads": []}

    def child(self, plan):
        out = []
        with installed(SimScheduler(Ctx(0, {}), 1, "fifo")):
            for c in plan["kids"]:
                inp = self.make_inputs(c)
                fn = catalog.OPS[c["op"]].build(c["params"]).fn
                out.append(compare.portable_outcome(*outcome(lambda: compute(fn(inp)))))
        return out

    def fork(self, plan, ctx, want, when):
        try:
            got = in_child(lambda: self.child(plan))
        except Inconclusive:
            raise Violation("child-hangs", f"a child forked {when} did not finish {[c['op'] for c in plan['kids']]}")
        ctx.sched("fork", when)
        if got[0] == "orphan":
            if not got[1]:
                raise Inconclusive("a lock of another library was held when the process was forked")
            raise Violation("child-deadlock", f"a child forked {when} waits for ever in {got[2]}")
        for c, w, g in zip(plan["kids"], want, got[1]):
            self.check(c, w, g, f"{c['op']} in a child forked {when}")

    def check(self, c, want, got, tag):
        if OWN in c07.brief(want):
            return
        if got[0] != want[0] or (got[0] == "err" and got[1] != want[1]):
            raise Violation("outcome-changed", f"{tag}: in a fresh process {c07.brief(want)}, here {c07.brief(got)}")
        if got[0] == "ok":
            d = compare.same(
                want[1], got[1], rtol=4e-5 if c["params"].get("dtype") == "f4" else 1e-9,
                floor=compare.tolerances(catalog.OPS[c["op"]], c["params"], catalog.fresh(c["op"], c["params"]))["floor"],
            )
            if d:
                raise Violation("result-changed", f"{tag}: {d}")

    def execute(self, plan, ctx):
        strict = plan["strict"]
        refs = self.solo(plan)
        kids = [x[0][0] for x in self.solo({**plan, "threads": [[c] for c in plan["kids"]]})]
        hist = self.solo({**plan, "threads": [[c] for c in plan["history"]]}) if plan["history"] else []
        strict_warnings(strict)
        with installed(SimScheduler(ctx, plan["workers"], "random")):
            for c, s in zip(plan["history"], hist):
                inp = self.make_inputs(c)
                fn = catalog.OPS[c["op"]].build(c["params"]).fn
                at = resolve_site(s[0][1], *c["at"]) if c["end"] == "inject" else None
                h = trace.Injector(at[0], at[1], EXC[c["exc"]](MARK)) if at else None
                with trace.handling(h):
                    k, v = attempt(lambda: compute(fn(inp)))
                ctx.sched("history", c["op"], c["end"], k)
        forks = 0
        if plan["history"]:
            self.fork(plan, ctx, kids, f"after {[c['op'] + ' ' + c['end'] for c in plan['history']]}")
            forks += 1
            ctx.tally("forks_after_history")
        preempts = 0
        if plan["threads"]:
            sites = [r[0][1] for r in refs]
            sites += [sites[0]] * 6
            total = sum(x[2] for r in refs for x in r)
            policy = resolve_policy(plan["policy"], sites)
            work = []
            for th in plan["threads"]:
                work.append([(c, self.make_inputs(c), catalog.OPS[c["op"]].build(c["params"]).fn) for c in th])
            sched = ThreadScheduler(ctx, plan["workers"])
            sim = Sim(ctx, policy, max_steps=200000 + 50 * total)
            state = {"n": 0, "skip": plan["skip"], "seen": 0}

            def watch(sim):
                inside = [t for t in sim.live if t.steps and t.state in ("paused", "ready", "blocked", "waiting")]
                if not inside or sim.preempts == state["seen"] or state["n"] >= plan["forks"]:
                    return
                state["seen"] = sim.preempts
                if state["skip"]:
                    state["skip"] -= 1
                    return
                if sim.regions:
                    ctx.tally("forks_left_out_in_a_region")
                    return
                state["n"] += 1
                cur = locks.current
                try:
                    self.fork(plan, ctx, kids, f"with {len(inside)} threads inside calls")
                finally:
                    locks.current = cur
                ctx.tally("forks_inside_calls")

            sim.watch = watch

            def body(calls):
                return lambda: [outcome(lambda: compute(fn(inp))) for _, inp, fn in calls]

            with installed(sched):
                ts = [sim.spawn(body(c)) for c in work]
                sim.run()
            for t, rs, calls in zip(ts, refs, work):
                if t.kind == "err":
                    raise t.value
                for (k, v), ref, (c, _, _) in zip(t.value, rs, calls):
                    self.check(c, ref[0], compare.portable_outcome(k, v), f"{c['op']} in thread {t.tid} of the parent")
            forks += state["n"]
            preempts = sim.preempts
            ctx.now += sim.total
        ctx.tally("preemptions", preempts)
        ops = [c["op"] for th in plan["threads"] for c in th] + [c["op"] for c in plan["kids"]]
        return {"op": ops[0], "case": "|".join(ops), "nontrivial": forks > 0, "forks": forks}


PROP = P()
