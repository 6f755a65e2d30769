"""C11: results do not depend on hash seed, clock, random state, locale or directory."""

import atexit
import hashlib
import os

import numpy as np

from .. import catalog, compare, interp
from ..daskexec import SimScheduler, installed
from ..inputs import chunk_inputs, compute, outcome
from ..kernel import Ctx, Violation, rng_for
from .base import Prop, shrink_params
from .c08 import gen_single

FARM = 5
# looked at more often: choices among variables, dates, seasons
MORE = [
    "climatology_average", "climatology_average", "climatology_average", "calendar_average", "climate_anomaly",
    "month_to_season", "zonal_meridional_psi", "interp_hybrid_to_pressure",
]


def text(x, out, path="", loose=False):
    """A flat description of a result: what it holds, in which order, to the last bit
    (numbers of chunked calls apart: dask itself adds up blocks in hash-seed order)."""
    xr = catalog._xr()
    if isinstance(x, xr.Dataset):
        out[path + "/type"] = type(x).__name__
        out[path + "/variables"] = list(map(str, x.data_vars))
        out[path + "/dims"] = list(map(str, x.dims))
        out[path + "/coords"] = list(map(str, x.coords))
        for k in x.data_vars:
            text(x[k].variable, out, f"{path}/{k}", loose)
        for k in x.coords:
            text(x.coords[k].variable, out, f"{path}/coord {k}")
        text(dict(x.attrs), out, f"{path}/attrs")
    elif isinstance(x, xr.DataArray):
        out[path + "/type"] = type(x).__name__
        out[path + "/name"] = str(x.name)
        text(x.variable, out, path, loose)
        out[path + "/coords"] = list(map(str, x.coords))
        for k in x.coords:
            text(x.coords[k].variable, out, f"{path}/coord {k}")
    elif isinstance(x, xr.Variable):
        out[path + "/dims"] = list(map(str, x.dims))
        text(np.asarray(x.values), out, path, loose)
        text(dict(x.attrs), out, f"{path}/attrs")
    elif isinstance(x, np.ndarray):
        out[path + "/dtype"] = str(x.dtype)
        out[path + "/shape"] = list(x.shape)
        if x.dtype.kind == "O":
            b = repr([repr(u) for u in x.ravel()]).encode()
        else:
            b = np.ascontiguousarray(x).tobytes()
        if loose and x.dtype.kind in "fc" and x.size < 5000:
            # numbers, to be compared up to rounding
            y = np.ascontiguousarray(x).astype("c16").ravel()
            out[path + "/numbers"] = [[repr(float(u.real)), repr(float(u.imag))] for u in y]
            return out
        out[path + "/values"] = hashlib.blake2b(b, digest_size=8).hexdigest()
    elif isinstance(x, dict):
        out[path + "/keys"] = list(map(str, x))
        for k, v in x.items():
            text(v, out, f"{path}/{k}")
    elif isinstance(x, (list, tuple)):
        out[path + "/len"] = [type(x).__name__, len(x)]
        for j, v in enumerate(x):
            text(v, out, f"{path}/{j}", loose)
    else:
        out[path] = f"{type(x).__name__}: {x!r}"
    return out


def close(a, b, params):
    """Equal up to rounding."""
    if a is None or b is None or len(a) != len(b):
        return False
    a, b = (np.array([[float(v) for v in u] for u in w]) for w in (a, b))
    if not len(a):
        return True
    fin = np.isfinite(a)
    if not (fin == np.isfinite(b)).all() or not np.array_equal(a[~fin], b[~fin], equal_nan=True):
        return False
    a, b = a[fin], b[fin]
    big = np.max(np.abs(a), initial=0.0)
    return bool((np.abs(a - b) <= (4e-5 if params.get("dtype") == "f4" else 1e-9) * big).all())


def answer(req):
    """In an interpreter of the farm (or here): one call under given surroundings."""
    c = req["call"]
    case = catalog.fresh(c["op"], c["params"])
    inp = chunk_inputs(case.inputs, c["chunks"])
    lib = interp.apply(req["env"])
    with installed(SimScheduler(Ctx(0, {}), 1, "fifo")):
        k, v = outcome(lambda: compute(case.fn(inp)))
    reads = [0, 0]
    if lib is not None:
        import ctypes

        reads = [ctypes.c_longlong.in_dll(lib, n).value for n in ("vsim_clock_reads", "vsim_random_reads")]
    if k == "ok":
        return {"kind": "ok", "what": text(v, {}, "", bool(c["chunks"])), "reads": reads}
    return {"kind": "err", "what": {"error": type(v).__name__, "cause": type(v.__cause__).__name__}, "reads": reads}


class P(Prop):
    id = "C11"
    runs = {"quick": 1500, "thorough": 20000}
    rule = (
        "One run: one random call, executed in the checking process and in two of five fresh interpreters, each with"
        " its own PYTHONHASHSEED, TZ, LC_ALL, LANG, HOME and directory, and under per-call surroundings: simulated wall"
        " clock (any year 1971-2200, standing still, running, running backwards, jumping), kernel random source, global"
        " random-generator states, time zone, locale, environment variables, directory. Oracle: equality of a flat"
        " description of the results, to the last bit (chunked calls: up to rounding) and in order. Non-trivial: the call succeeded; distinct by"
        " operation, arguments and surroundings."
    )
    measure = "hash of the call and the surroundings it was run in"
    assumptions = [
        "number of BLAS threads and machine are the same (rounding of third-party kernels)",
        "installed locales are C, POSIX and C.utf8 only",
    ]
    stub = Prop.stub + ["wall clock and kernel random source (LD_PRELOAD shim)"]

    def setup(self):
        if os.environ.get("VSIM_NO_FARM"):
            return
        seed = os.environ.get("VERIF_SEED", "1")
        r = rng_for("farm", seed)
        self.farm = interp.Farm([r.randrange(1, 2**32) for _ in range(FARM)])
        self.main = os.getpid()

    def teardown(self):
        self.farm.close()

    def gen(self, r, i):
        c = gen_single(self, r, i, 0.25, list(catalog.OPS) + MORE)
        ks = r.sample(range(FARM), 2)
        envs = []
        for _ in ks:
            envs.append({
                "clock": [r.randrange(31536000, 7258118400), r.choice([0, 0.001, -1, 3600, -86400, 86400 * 31])],
                "rng": r.randrange(2**31),
                "tz": r.choice(["UTC", "XXX+11", "YYY-13:45", "VVV-9", "WWW+5:30", "Asia/Tokyo", None]),
                "locale": r.choice(["C", "POSIX", "C.utf8", None]),
                "vars": r.choice([{}, {"GEOCAT": "1", "NUM": "2"}, {"COLUMNS": "20", "LC_NUMERIC": "de_DE"}, {"USER": "x", "XDG_CACHE_HOME": "/nonexistent"}]),
                "cwd": r.choice(["/", "/tmp", None, None]),
            })
        return {"call": c, "where": ks, "envs": envs}

    def shrink(self, plan):
        if len(plan["where"]) > 1:
            for j in range(len(plan["where"])):
                yield {**plan, "where": [plan["where"][j]], "envs": [plan["envs"][j]]}
        for j, e in enumerate(plan["envs"]):
            for k, v in list(e.items()):
                if v:
                    e2 = dict(e, **{k: None})
                    yield {**plan, "envs": plan["envs"][:j] + [e2] + plan["envs"][j + 1 :]}
        if plan["call"]["chunks"]:
            yield {**plan, "call": dict(plan["call"], chunks={})}
        else:
            for q in shrink_params(None, plan["call"]["params"]):
                yield {**plan, "call": dict(plan["call"], params=q)}

    def execute(self, plan, ctx):
        c = plan["call"]
        base = answer({"call": c, "env": {}})
        for k, env in zip(plan["where"], plan["envs"]):
            ctx.sched("ask", k, sorted(map(str, env.items())), c["op"], sorted(map(str, c["params"].items())))
            got = self.farm.ask(k, {"call": c, "env": env})
            if "harness" in got:
                raise RuntimeError(got["harness"])
            ctx.tally("clock_reads_served", got["reads"][0])
            ctx.tally("random_reads_served", got["reads"][1])
            for f in ("clock", "rng", "tz", "locale", "cwd"):
                ctx.tally(f"varied_{f}", int(env.get(f) is not None))
            ctx.tally("other_hash_seed")
            where = f"{c['op']} in an interpreter with {self.farm.configs[k]} and {env}"
            if got["kind"] != base["kind"]:
                raise Violation("outcome-depends-on-surroundings", f"{where}: {base['kind']} here, {got['kind']} there ({got['what'] if got['kind'] == 'err' else base['what']})")
            ks = [
                x for x in dict.fromkeys(list(base["what"]) + list(got["what"]))
                if base["what"].get(x) != got["what"].get(x)
                and not (x.endswith("/numbers") and close(base["what"].get(x), got["what"].get(x), c["params"]))
            ]
            if ks:
                raise Violation(
                    "result-depends-on-surroundings",
                    f"{where}: differs at {ks[0]!r}: {base['what'].get(ks[0])!r} here, {got['what'].get(ks[0])!r} there"
                    + (f" (and {len(ks) - 1} more)" if len(ks) > 1 else ""),
                )
        return {"op": c["op"], "case": c["op"], "nontrivial": base["kind"] == "ok"}


PROP = P()
