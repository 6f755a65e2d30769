"""C14: a call cut short by an exception ends with it, never with a wrong result."""

import asyncio

from .. import catalog, compare, forked, trace
from ..daskexec import SimScheduler, installed
from ..dress import damage
from ..inputs import any_lazy, chunk_inputs, compute, describe
from ..kernel import Ctx, Inconclusive, Violation
from .base import Prop, shrink_params
from .c08 import gen_single, resolve_site

MARK = "vsim: cut short"


class Stopped(BaseException):
    """Raised by an environment to stop a thread (as gevent, trio or a debugger do)."""


# these are requests to stop: they pass through everything as they are
STOPS = {
    "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "CancelledError": asyncio.CancelledError,
    "Stopped": Stopped,
}
# these are failures: an error that names them as its cause, or the right result in spite of them
FAILS = {
    "MemoryError": MemoryError, "OSError": lambda m: OSError(28, m), "TimeoutError": TimeoutError,
    "RecursionError": RecursionError, "RuntimeError": RuntimeError, "FloatingPointError": FloatingPointError,
}
EXC = {**STOPS, **FAILS}


def attempt(f):
    """('ok', value) or ('err', exception), whatever the exception is."""
    try:
        return "ok", f()
    except (Violation, Inconclusive):
        raise
    except BaseException as e:
        return "err", e


def in_chain(e, exc):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if e is exc or MARK in str(e):
            return True
        if isinstance(e, BaseExceptionGroup):
            return any(in_chain(x, exc) for x in e.exceptions)
        e = e.__cause__ if e.__cause__ is not None else None if e.__suppress_context__ else e.__context__
    return False


class P(Prop):
    id = "C14"
    runs = {"quick": 2200, "thorough": 40000}
    rule = (
        "One run: one operation, in memory or chunked and computed by the simulated scheduler, made six times, each time cut"
        " short at another executed source line of the library (the lines sweep over all of them across runs) by a request"
        " to stop (KeyboardInterrupt, SystemExit, task cancellation, another BaseException) or a failure (MemoryError,"
        " full disk, timeout, recursion limit, runtime or floating-point error). Then the interrupted lazy result is computed,"
        " and the call made, undisturbed. Oracle: the undisturbed call in a fresh process, and the chain of the exception."
        " Non-trivial: at least one fault fired; distinct by operation, arguments, lines and exceptions."
    )
    measure = "hash of the (line, occurrence, exception) sequence and task order"
    assumptions = [
        "asynchronous exceptions arrive between source lines of the library, not inside its clean-up code",
        "failures are of kinds no documented argument check is about (no ValueError, TypeError, KeyError, AttributeError)",
    ]
    stub = Prop.stub + ["source of asynchronous exceptions and failures"]

    def setup(self):
        trace.install()

    def gen(self, r, i):
        c = gen_single(self, r, i, 0.4)
        k = i // len(catalog.OPS)
        return {
            **c,
            "cuts": [
                {"at": [((k * 6 + j) * 0.6180339887498949) % 1.0, r.random()], "exc": r.choice(list(EXC))} for j in range(6)
            ],
            "workers": r.choice([1, 2, 3]),
            "bad": r.choice([None] * 9 + [0, 1, 2]),
        }

    def shrink(self, plan):
        if len(plan["cuts"]) > 1:
            for j in range(len(plan["cuts"])):
                yield {**plan, "cuts": [plan["cuts"][j]]}
        for k, v in (("workers", 1), ("chunks", {}), ("bad", None)):
            if plan[k] != v:
                yield {**plan, k: v}
        if not plan["chunks"]:
            for q in shrink_params(None, plan["params"]):
                yield {**plan, "params": q}

    def make(self, plan):
        case = catalog.fresh(plan["op"], plan["params"])
        inp = chunk_inputs(case.inputs, plan["chunks"])
        if plan["bad"] is not None:
            inp = damage(inp, plan["bad"])
        return lambda: case.fn(inp)

    def reference(self, plan):
        def f():
            rec = trace.Recorder()
            call = self.make(plan)
            with installed(SimScheduler(Ctx(0, {}), 1, "fifo")), trace.handling(rec):
                k, v = attempt(lambda: compute(call()))
            return compare.portable_outcome(k, v), rec.inj

        return forked.call(f)

    def right(self, plan, tag, want, k, v):
        got = compare.portable_outcome(k, v)
        if got[0] != want[0] or (got[0] == "err" and got[1] != want[1]):
            raise Violation("outcome-changed", f"{tag}: undisturbed {brief(want)}, now {brief(got)}")
        if got[0] == "ok":
            tol = compare.tolerances(catalog.OPS[plan["op"]], plan["params"], catalog.fresh(plan["op"], plan["params"]))
            d = compare.same(want[1], got[1], rtol=4e-5 if plan["params"].get("dtype") == "f4" else 1e-11, floor=tol["floor"])
            if d:
                raise Violation("wrong-result", f"{tag}: {d}")

    def execute(self, plan, ctx):
        want, inj = self.reference(plan)
        sched = SimScheduler(ctx, plan["workers"], "random")
        fired = 0
        with installed(sched):
            for c in plan["cuts"]:
                at = resolve_site(inj, *c["at"])
                if not at:
                    break
                e = EXC[c["exc"]](MARK)
                h = trace.Injector(at[0], at[1], e)
                call = self.make(plan)
                lazy = None
                with trace.handling(h):
                    k, v = attempt(call)
                    stage = "call"
                    if k == "ok" and any_lazy(v):
                        lazy, stage = v, "compute"
                        k, v = attempt(lambda: compute(lazy))
                ctx.sched("cut", at, c["exc"], h.fired, stage, k)
                if not h.fired:
                    continue
                fired += 1
                ctx.tally(f"injected_{c['exc']}")
                ctx.tally(f"injected_in_{stage}")
                tag = f"{plan['op']}: {c['exc']} at {at[0]} (occurrence {at[1]})"
                if k == "ok":
                    if c["exc"] in STOPS:
                        raise Violation("stop-swallowed", f"{tag}: the {stage} went on and returned")
                    ctx.tally("recovered_by_itself")
                    if want[0] == "err":
                        raise Violation("result-instead-of-error", f"{tag}: undisturbed {brief(want)}, with the failure a result")
                    self.right(plan, f"{tag}: returned in spite of it", want, k, v)
                elif c["exc"] in STOPS:
                    if v is not e and type(v) is not type(e):
                        raise Violation("stop-replaced", f"{tag}: the {stage} raised {describe(v)} instead")
                elif not in_chain(v, e) and not (want[0] == "err" and type(v).__name__ == want[1]):
                    raise Violation("failure-hidden", f"{tag}: the {stage} raised {describe(v)}, without it in its chain")
                del v
                if lazy is not None and want[0] == "ok" and k == "err":
                    k, v = attempt(lambda: compute(lazy))
                    self.right(plan, f"{tag}: computing the same result again", want, k, v)
                    ctx.tally("recomputed")
            call = self.make(plan)
            k, v = attempt(lambda: compute(call()))
            self.right(plan, f"{plan['op']} after {fired} calls cut short", want, k, v)
        ctx.tally("tasks", sched.tasks)
        return {
            "op": plan["op"],
            "case": f"{plan['op']}|{plan['chunks']}|{[(c['at'], c['exc']) for c in plan['cuts']]}",
            "nontrivial": fired > 0,
            "cuts": fired,
        }


def brief(o):
    return "succeeds" if o[0] == "ok" else f"raises {o[1]}: {o[2][:120]}"


PROP = P()
