"""C09: process-wide state is left as found."""

import logging
import os
import random
import tempfile
import threading
import warnings

import numpy as np

from .. import catalog, forked, trace
from ..daskexec import SimScheduler, ThreadScheduler, installed
from ..dress import damage
from ..inputs import chunk_inputs, compute, describe, outcome
from ..kernel import Ctx, Violation
from ..threads import Sim
from ..world import World
from .base import Prop, shrink_params
from .c07 import SCALARS, gen_policy, resolve_policy
from .c08 import EXC, gen_single, resolve_site


class MyWarning(UserWarning):
    pass


# operations whose dask tasks run library code on this tree (others are drawn too, less often)
TASKED = ["interp_hybrid_to_pressure"]


# process-wide settings a caller may have made before the call
def _filters(on):
    warnings.filterwarnings("once", message="nothing like this", category=MyWarning)
    warnings.filterwarnings("ignore", category=ResourceWarning, append=True)


def _filters_error(on):
    warnings.filterwarnings("error", category=MyWarning)
    warnings.simplefilter("always", category=RuntimeWarning)


def _xr(on):
    import xarray as xr

    xr.set_options(keep_attrs=on, display_width=91)


def _np(on):
    np.seterr(over="warn", divide="warn", invalid="print" if on else "warn")
    np.set_printoptions(precision=4, suppress=on)


def _rng(on):
    random.seed(5)
    np.random.seed(7)


def _env(on):
    os.environ["GEOCAT_SIM_SETTING"] = "x"
    os.environ["DASK_SOMETHING"] = "1"


def _dask(on):
    import dask

    dask.config.set({"array.slicing.split-large-chunks": on, "optimization.fuse.ave-width": 3})


def _pandas(on):
    import pandas as pd

    pd.set_option("display.precision", 3)
    pd.set_option("display.max_rows", 17)


def _logs(on):
    logging.getLogger().setLevel(logging.ERROR)
    logging.getLogger("geocat.comp").setLevel(logging.DEBUG)
    logging.captureWarnings(on)
    if on and not logging.getLogger("py.warnings").handlers:
        # what the standard library itself does on the first captured warning
        logging.getLogger("py.warnings").addHandler(logging.NullHandler())


def _misc(on):
    import decimal
    import gc

    decimal.getcontext().prec = 17
    gc.set_threshold(900, 11, 12)
    os.umask(0o27)


SETTINGS = {
    "filters": _filters, "error-filters": _filters_error, "xarray": _xr, "numpy": _np,
    "random": _rng, "environment": _env, "dask": _dask, "pandas": _pandas,
    "logging": _logs, "misc": _misc,
}


def local_state():
    import decimal

    return (repr(np.geterr()), repr(np.geterrcall()), repr(sorted(np.get_printoptions().items(), key=str)),
            np.getbufsize(), decimal.getcontext().prec, decimal.getcontext().rounding)


class P(Prop):
    id = "C09"
    runs = {"quick": 2800, "thorough": 40000}
    rule = (
        "One run: random non-default process-wide settings, then one operation that returns, fails, is computed on"
        " worker threads, overlaps a call in another thread, or is cut short by KeyboardInterrupt/MemoryError/OSError"
        " at a source line chosen from those it executes (swept across runs; in the caller or in a worker thread)."
        " Oracle: snapshot of 27 kinds of process-wide state before and after, thread-local ones in every thread."
        " Non-trivial: the fault fired, or calls overlapped, or tasks ran; distinct by operation, settings, ending and line."
    )
    measure = "hash of the (line, ending, preemption) events of a run"
    assumptions = [
        "asynchronous exceptions arrive between source lines of the library, not inside its clean-up code",
        "imports and their one-time effects happen before the snapshot",
    ]
    stub = Prop.stub + ["thread scheduler for the overlapping runs", "source of asynchronous exceptions"]

    def setup(self):
        trace.install()

    def gen(self, r, i):
        end = r.choice(["normal", "inject", "inject", "inject", "thread", "thread", "thread-inject", "workers", "workers-inject"])
        names = None
        if end.startswith("workers"):
            # tasks that run library code on dask's worker threads
            names = TASKED if r.random() < 0.8 else None
        c = gen_single(self, r, i, 0.9 if end.startswith("workers") else 0.3, names)
        k = i // len(catalog.OPS)
        other = None
        if end.startswith("thread"):
            other = gen_single(self, r, r.randrange(1000), 0.2, [c["op"]] if r.random() < 0.7 else None)
        return {
            **c,
            "other": other,
            "settings": sorted(r.sample(list(SETTINGS), r.choice([0, 1, 3, 6]))),
            "on": r.random() < 0.5,
            "ending": end,
            "at": [(k * 0.6180339887498949) % 1.0, r.random()],
            "exc": r.choice(list(EXC)),
            "workers": r.choice([2, 2, 3]),
            # further lines at which the same call is cut short, one after another
            "more": [[r.random(), r.random()] for _ in range(4 if end == "inject" else 0)],
            "bad": r.choice([None, None, None, None, 0, 1, 2, 3]),
            "policy": gen_policy(r, 2 + (2 if end.startswith("workers") else 0), k),
        }

    def shrink(self, plan):
        for k, v in (("settings", []), ("ending", "normal"), ("chunks", {}), ("workers", 1), ("other", None), ("on", False), ("more", []), ("bad", None)):
            if plan[k] != v:
                if k == "other" and plan["ending"].startswith("thread"):
                    continue
                yield {**plan, k: v}
        for s in plan["settings"]:
            yield {**plan, "settings": [x for x in plan["settings"] if x != s]}
        if plan["policy"][0] == "pause":
            for t, pts in plan["policy"][1].items():
                q = {a: b for a, b in plan["policy"][1].items() if a != t}
                yield {**plan, "policy": ["pause", q]}
                for j in range(len(pts)):
                    if len(pts) > 1:
                        q = dict(plan["policy"][1])
                        q[t] = pts[:j] + pts[j + 1 :]
                        yield {**plan, "policy": ["pause", q]}
        for q in shrink_params(None, plan["params"]):
            if not plan["chunks"]:
                yield {**plan, "params": q}

    def prepare(self, c):
        case = catalog.fresh(c["op"], c["params"])
        inp = chunk_inputs(case.inputs, c["chunks"])
        if c.get("bad") is not None:
            inp = damage(inp, c["bad"])
        return case.fn, inp

    def reference(self, plan):
        """Line events of the undisturbed calls, under the same settings."""

        def f():
            self.settle(plan)
            out = []
            for c in [plan] + ([plan["other"]] if plan["other"] else []):
                fn, inp = self.prepare(c)
                rec = trace.Recorder()
                task = trace.Recorder()

                def hook(name, node, data, run):
                    with trace.handling(task):
                        return node(data)

                w = World()
                with installed(SimScheduler(Ctx(0, {}), 1, "fifo", hook)), trace.handling(rec):
                    outcome(lambda: compute(fn(inp)))
                out.append((rec.inj, {**rec.sites, **task.sites}, w.diff(), task.inj, task.sites))
            return out

        return forked.call(f)

    def settle(self, plan):
        for s in plan["settings"]:
            SETTINGS[s](plan["on"])

    def execute(self, plan, ctx):
        refs = self.reference(plan)
        for c, ref in zip([plan, plan["other"]], refs):
            self.judge(c, ref[2], "an undisturbed call")
        self.settle(plan)
        inj, sites, _, tinj, tsites = refs[0]
        if plan["ending"] == "workers-inject":
            inj = tinj
        fn, inp = self.prepare(plan)
        end = plan["ending"]
        fired = False
        handler = None
        if end.endswith("inject"):
            at = resolve_site(inj, *plan["at"])
            if at:
                handler = trace.Injector(at[0], at[1] if end == "inject" else 0, EXC[plan["exc"]]("simulated"))
                ctx.sched("inject", at, plan["exc"])
        locals_bad = []
        overlap = 0
        for u, x in plan["more"] if end == "inject" else ():
            at = resolve_site(inj, u, x)
            if not at:
                break
            h = trace.Injector(at[0], at[1], EXC[plan["exc"]]("simulated"))
            ctx.sched("inject", at, plan["exc"])
            fn2, inp2 = self.prepare(plan)
            w = World()
            with installed(SimScheduler(ctx, plan["workers"], "random")), trace.handling(h):
                try:
                    k, v = outcome(lambda: compute(fn2(inp2)))
                except KeyboardInterrupt as e:
                    k, v = "err", e
            del v
            ctx.tally(f"injected_{plan['exc']}", int(h.fired))
            self.judge(plan, w.diff(), f"a call cut short by {plan['exc']} at {h.where}" if h.fired else "a call")
        if end == "inject" or end == "normal":
            w = World()
            with installed(SimScheduler(ctx, plan["workers"], "random")), trace.handling(handler):
                try:
                    k, v = outcome(lambda: compute(fn(inp)))
                except KeyboardInterrupt as e:
                    k, v = "err", e
            tasks = 0
        else:
            was = {}

            def enter():
                was[threading.get_ident()] = local_state()

            def leave(name):
                now, old = local_state(), was.get(threading.get_ident())
                if old is not None and now != old:
                    locals_bad.append((name, old, now))

            def faults(sim):
                if end == "workers-inject" and handler is not None:
                    sim.inject[sim.me().tid] = handler

            sched = ThreadScheduler(ctx, plan["workers"], enter, leave, faults)
            sim = Sim(ctx, resolve_policy(plan["policy"], [sites] + [r[1] for r in refs[1:]] + [tsites or sites] * 8))

            def body(f, i):
                def go():
                    enter()
                    try:
                        return outcome(lambda: compute(f(i)))
                    except KeyboardInterrupt as e:
                        return "err", e
                    finally:
                        leave("caller")

                return go

            w = World()
            with installed(sched):
                a = sim.spawn(body(fn, inp))
                if plan["other"]:
                    fn2, inp2 = self.prepare(plan["other"])
                    sim.spawn(body(fn2, inp2))
                if end == "thread-inject" and handler is not None:
                    sim.inject[a.tid] = handler
                sim.run(drain=True)
                if a.kind == "err":
                    raise a.value
            k, v = a.value
            tasks = sched.tasks
            overlap = sim.preempts
            ctx.tally("preemptions", sim.preempts)
            ctx.tally("task_overlaps", sched.overlaps)
        if handler is not None:
            fired = handler.fired
            ctx.tally(f"injected_{plan['exc']}", int(fired))
            ctx.tally(f"fired_{end}", int(fired))
        del v
        d = w.diff()
        how = "a call that returned" if k == "ok" else "a call that raised"
        if fired:
            how += f" (cut short by {plan['exc']} at {handler.where})"
        if overlap:
            how += " beside another" if plan["other"] else " on worker threads"
        self.judge(plan, d, how)
        if locals_bad:
            n, o, b = locals_bad[0]
            raise Violation("thread-state-changed", f"{plan['op']}: {n} leaves {o} -> {b} in its thread")
        ctx.tally(f"ended_by_{'return' if k == 'ok' else 'exception'}")
        for s in plan["settings"]:
            ctx.tally(f"setting_{s}")
        return {
            "op": plan["op"],
            "case": f"{plan['op']}|{end}|{','.join(plan['settings'])}|{plan['on']}",
            "nontrivial": bool(fired or overlap or tasks or plan["settings"]),
            "ending": end,
            "outcome": k,
        }

    def judge(self, c, d, how):
        if d:
            raise Violation("state-changed", f"{c['op']}: after {how}: {'; '.join(d)}")


PROP = P()
