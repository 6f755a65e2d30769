"""Seeds -> simulated runs -> verdict, replay file, evidence."""

import gc
import importlib
import json
import os
import select
import signal
import struct
import sys
import time
import traceback

from . import boot
from .kernel import Ctx, Inconclusive, Violation, rng_for

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(ROOT, "known_findings.txt")
RUN_CAP = float(os.environ.get("VSIM_RUN_CAP", "90"))


def load(prop):
    return importlib.import_module(f"vsim.props.{prop.lower()}").PROP


# ------------------------------------------------------------ one run, in place
def execute(prop, plan, seed, forced=None, keep_log=False):
    """Run one plan in this process; return a JSON-able record."""
    ctx = Ctx(seed, forced)
    ctx.keep_log = keep_log
    rec = {"verdict": "ok"}
    t0 = time.perf_counter()
    seed_uuid(seed)
    try:
        info = prop.execute(plan, ctx) or {}
        rec["info"] = info
    except Violation as v:
        rec.update(verdict="violation", cls=v.cls, msg=v.msg[:2000])
    except Inconclusive as e:
        rec.update(verdict="inconclusive", msg=str(e)[:500])
    except BaseException as e:  # a defect of the harness, not a verdict
        rec.update(
            verdict="harness",
            msg=f"{type(e).__name__}: {e}"[:500],
            tb="".join(traceback.format_exception(e))[-3000:],
        )
    rec["stats"] = ctx.stats
    rec["events"] = ctx.nevents
    rec["sim"] = ctx.now
    rec["loghash"] = ctx.loghash()
    rec["sig"] = ctx.signature()
    rec["trace"] = ctx.trace if rec["verdict"] == "violation" else None
    if rec["verdict"] != "violation":
        del rec["trace"]
    rec["wall"] = time.perf_counter() - t0
    if keep_log:
        rec["log"] = ctx.log
    return rec


def seed_uuid(seed):
    """Random identifiers (dask's graph keys) come from the run's seed."""
    import random
    import uuid

    g = random.Random(f"uuid:{seed}")
    uuid.uuid4 = lambda: uuid.UUID(int=g.getrandbits(128), version=4)


def _send(fd, obj):
    b = json.dumps(obj, default=str).encode()
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd, timeout):
    """Read one message; None on timeout, b'' on EOF."""
    end = time.monotonic() + timeout
    buf = b""
    need = None
    while True:
        left = end - time.monotonic()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], left)
        if not r:
            return None
        c = os.read(fd, 1 << 20)
        if not c:
            return b""
        buf += c
        if need is None and len(buf) >= 4:
            need = struct.unpack("<I", buf[:4])[0] + 4
        if need is not None and len(buf) >= need:
            return json.loads(buf[4:need])


def isolated(prop, plan, seed, forced=None, keep_log=False, cap=None):
    """Run one plan in a forked child of this (pristine) process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setsid()
            rec = execute(prop, plan, seed, forced, keep_log)
            _send(w, rec)
        except BaseException as e:
            try:
                _send(w, {"verdict": "harness", "msg": repr(e), "stats": {}})
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    cap = cap or RUN_CAP
    rec = _recv(r, cap)
    os.close(r)
    if rec is None:
        rec = {"verdict": "hang", "msg": f"no result in {cap:.0f} s of wall time", "stats": {}}
    elif rec == b"":
        rec = {"verdict": "harness", "msg": "the run's process died", "stats": {}}
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    return rec


def plan_for(prop, seed, i):
    return prop.gen(rng_for(seed, prop.id, i), i)


# ------------------------------------------------------------------ the batch
def _worker(prop, seed, idxs, fd, deadline):
    for i in idxs:
        if time.monotonic() > deadline:
            break
        try:
            plan = plan_for(prop, seed, i)
        except BaseException as e:
            _send(fd, {"i": i, "verdict": "harness", "msg": f"gen: {e!r}", "stats": {}})
            continue
        rec = isolated(prop, plan, f"{seed}:{prop.id}:{i}")
        rec["i"] = i
        _send(fd, rec)
    os._exit(0)


def run_batch(prop, seed, n, nproc, wall, on_rec, stop_on=None):
    """Runs 0..n-1 over nproc processes; on_rec(rec) -> True stops the batch."""
    deadline = time.monotonic() + wall
    procs = {}
    for w in range(nproc):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _worker(prop, seed, range(w, n, nproc), wr, deadline)
            finally:
                os._exit(1)
        os.close(wr)
        procs[r] = [pid, b""]
    stop = False
    try:
        while procs and not stop:
            rs, _, _ = select.select(list(procs), [], [], 1.0)
            for r in rs:
                c = os.read(r, 1 << 20)
                if not c:
                    os.close(r)
                    os.waitpid(procs.pop(r)[0], 0)
                    continue
                procs[r][1] += c
                while len(procs[r][1]) >= 4:
                    b = procs[r][1]
                    m = struct.unpack("<I", b[:4])[0] + 4
                    if len(b) < m:
                        break
                    procs[r][1] = b[m:]
                    if on_rec(json.loads(b[4:m])):
                        stop = True
    finally:
        for r, (pid, _) in procs.items():
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(r)


# ---------------------------------------------------------------- minimisation
def minimise(prop, plan, seed, rec, budget=60.0, max_tries=400):
    """Shrink plan and schedule while the same class of violation persists."""
    end = time.monotonic() + budget
    forced = dict(rec.get("trace") or {})
    cls = rec["cls"]
    tries = 0

    def ok(p, f):
        nonlocal tries
        tries += 1
        if tries > max_tries or time.monotonic() > end:
            return None
        r = isolated(prop, p, seed, f)
        return r if r["verdict"] == "violation" and r["cls"] == cls else None

    best = ok(plan, forced)
    if best is None:
        return plan, None, rec, tries
    # schedule first: all choices undisturbed, then halves, then one by one
    def shrink_trace(plan, forced, best):
        r = ok(plan, {})
        if r:
            return {}, r
        keys = sorted(forced)
        size = max(1, len(keys) // 2)
        while size >= 1 and keys and time.monotonic() < end:
            k = 0
            hit = False
            while k < len(keys):
                cand = {x: forced[x] for x in keys[:k] + keys[k + size :]}
                r = ok(plan, cand)
                if r:
                    forced, best, hit = cand, r, True
                    keys = sorted(forced)
                else:
                    k += size
                if time.monotonic() > end:
                    break
            if size == 1 and not hit:
                break
            size = max(1, size // 2) if size > 1 else (1 if hit else 0)
        return forced, best

    forced, best = shrink_trace(plan, forced, best)
    progress = True
    while progress and time.monotonic() < end and tries < max_tries:
        progress = False
        for cand in prop.shrink(plan):
            if time.monotonic() > end:
                break
            r = ok(cand, forced)
            if r:
                plan, best, progress = cand, r, True
                break
    forced, best = shrink_trace(plan, forced, best)
    return plan, forced, best, tries


# ------------------------------------------------------------- known findings
def known_findings(prop_id):
    """Lines 'KNOWN property=<id> match=<text> :: <what fails>'."""
    out = []
    try:
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith(f"KNOWN property={prop_id} match="):
                m, _, what = line[len(f"KNOWN property={prop_id} match=") :].partition(" :: ")
                out.append((m, what))
    except FileNotFoundError:
        pass
    return out


# ------------------------------------------------------------------------ main
def main(prop_id, tier=None, seed=None, runs=None, nproc=None):
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    os.environ["VERIF_SEED"] = str(seed)
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    prop = load(prop_id)
    boot.warm(prop)
    prop.setup()
    t_boot = time.monotonic() - t0
    nproc = nproc or max(2, min(8, os.cpu_count() or 2))
    n = runs or prop.runs[tier]
    wall = prop.wall[tier]
    gc.collect()
    gc.freeze()

    agg = {
        "n": 0, "verdicts": {}, "stats": {}, "sigs": set(), "nontrivial": set(),
        "samples": [], "sim": 0.0, "events": 0, "wall": 0.0, "slow": 0.0, "ops": {},
    }
    viol, bad, known_seen = [], [], {}
    known = known_findings(prop_id)

    def on_rec(rec):
        agg["n"] += 1
        v = rec["verdict"]
        agg["verdicts"][v] = agg["verdicts"].get(v, 0) + 1
        for k, c in rec.get("stats", {}).items():
            agg["stats"][k] = agg["stats"].get(k, 0) + c
        if rec.get("sig"):
            agg["sigs"].add(rec["sig"])
        agg["sim"] += rec.get("sim", 0.0)
        agg["events"] += rec.get("events", 0)
        agg["wall"] += rec.get("wall", 0.0)
        agg["slow"] = max(agg["slow"], rec.get("wall", 0.0))
        info = rec.get("info") or {}
        agg["slowest"] = sorted(agg.get("slowest", []) + [(round(rec.get("wall", 0.0), 2), rec["i"], info.get("case", "")[:60])])[-8:]
        if info.get("op"):
            agg["ops"][info["op"]] = agg["ops"].get(info["op"], 0) + 1
        if v == "ok" and info.get("nontrivial"):
            agg["nontrivial"].add(info.get("case", "") + rec["sig"])
            if len(agg["samples"]) < 4 and agg["n"] % 7 == 0:
                agg["samples"].append({"run": rec["i"], "sig": rec["sig"], **info})
        if v == "violation":
            for m, what in known:
                if m in f"{rec['cls']}: {rec['msg']}":
                    known_seen[m] = what
                    return False
            viol.append(rec)
            return True
        if v in ("harness", "hang"):
            bad.append(rec)
            return len(bad) > 20
        return False

    tb = time.monotonic()
    run_batch(prop, seed, n, nproc, wall, on_rec)
    batch = time.monotonic() - tb

    code = 0
    replay_path = None
    lines = []
    for m, what in known:
        lines.append(f"KNOWN-FINDING: property={prop_id} {what}")
    if viol:
        viol.sort(key=lambda r: r["i"])
        rec = viol[0]
        i = rec["i"]
        plan = plan_for(prop, seed, i)
        s = f"{seed}:{prop_id}:{i}"
        mplan, forced, best, tries = minimise(prop, plan, s, rec)
        confirmed = forced is not None
        doc = {
            "property": prop_id,
            "verif_seed": seed,
            "run": i,
            "seed": s,
            "violation": {"class": best["cls"], "message": best["msg"]},
            "plan": mplan,
            "schedule": forced if confirmed else rec.get("trace"),
            "loghash": best.get("loghash"),
            "confirmed_in_second_run": confirmed,
            "original_plan": plan,
            "minimiser_tries": tries,
        }
        if confirmed:
            full = isolated(prop, mplan, s, forced, keep_log=True)
            doc["events"] = full.get("log", [])[-400:]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        replay_path = os.path.join(ROOT, "replays", f"{prop_id}-{seed}-{i}.json")
        with open(replay_path, "w") as f:
            json.dump(doc, f, indent=1, default=str)
        print(f"run {i}: {best['cls']}: {best['msg']}")
        lines.append(f"VIOLATION property={prop_id} replay={replay_path}")
        code = 1
    elif len([r for r in bad if r["verdict"] == "hang"]) == len(bad) and len(bad) <= max(3, n // 100):
        # slow machine or very large graph: no verdict on these runs
        for r in bad:
            print(f"note: run {r.get('i')} gave no result: {r.get('msg')}")
    elif bad:
        for r in bad[:5]:
            print(f"HARNESS run {r.get('i')}: {r['verdict']}: {r.get('msg')}\n{r.get('tb', '')}", file=sys.stderr)
        code = 2

    ev = {
        "property": prop_id,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["n"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": prop.rule,
            "samples": agg["samples"] or [{"note": "no non-trivial run sampled"}],
            "planned_runs": n,
            "verdicts": agg["verdicts"],
            "runs_per_hour": round(agg["n"] / max(batch, 1e-9) * 3600),
            "seeds_per_hour": round(agg["n"] / max(batch, 1e-9) * 3600),
            "simulated_time": round(agg["sim"], 1),
            "simulated_time_unit": "scheduler ticks (task durations, message delays, retry timers)",
            "events": agg["events"],
            "distinct_interleavings": len(agg["sigs"]),
            "interleaving_measure": prop.measure,
            "faults_and_probes": dict(sorted(agg["stats"].items())),
            "runs_by_operation": dict(sorted(agg["ops"].items())),
            "real_components": prop.real,
            "stub_components": prop.stub,
            "processes": nproc,
            "slowest_run_s": round(agg["slow"], 3),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(viol),
    }
    prop.extend_evidence(ev, agg)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop_id}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{prop_id} {tier} seed={seed}: {agg['n']}/{n} runs, {agg['verdicts']}, "
        f"{len(agg['nontrivial'])} distinct non-trivial, boot {t_boot:.1f}s, batch {batch:.1f}s, "
        f"slowest {agg['slow']:.2f}s"
    )
    if os.environ.get("VSIM_DEBUG"):
        print(agg["slowest"], agg["stats"])
    if agg["n"] < n and not viol and code == 0:
        print(f"note: wall budget reached after {agg['n']} of {n} runs")
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    prop.teardown()
    os._exit(code)


def replay(path):
    doc = json.load(open(path))
    os.environ["VERIF_SEED"] = str(doc["verif_seed"])
    prop = load(doc["property"])
    boot.warm(prop)
    prop.setup()
    rec = isolated(prop, doc["plan"], doc["seed"], doc["schedule"], keep_log=True)
    same = rec["verdict"] == "violation" and rec["cls"] == doc["violation"]["class"]
    exact = same and rec.get("loghash") == doc.get("loghash")
    for e in rec.get("log", [])[-60:]:
        print("  ", e)
    print(f"replay: {rec['verdict']} {rec.get('cls', '')}: {rec.get('msg', '')}")
    print(f"reproduced={same} identical_event_log={exact}")
    if same:
        print(f"VIOLATION property={doc['property']} replay={path}")
    sys.stdout.flush()
    prop.teardown()
    if same:
        os._exit(1)
    os._exit(0 if rec["verdict"] == "ok" else 2)


def selftest():
    """Import everything from /repo, build one case of every operation."""
    boot.warm()
    from . import catalog

    import random

    n = 0
    for name, op in catalog.OPS.items():
        catalog.fresh(name, op.gen(random.Random(1)))
        n += 1
    print(f"ready: {n} operations, geocat.comp from {boot.REPO}")


def determinism(ids, runs=40):
    """The same seeds twice, over different numbers of processes: same event logs."""
    ids = ids or [f"C{i:02d}" for i in range(1, 14)]
    bad = 0
    for pid in ids:
        if os.fork() == 0:
            seed = int(os.environ.get("VERIF_SEED", "1"))
            os.environ["VERIF_SEED"] = str(seed)
            prop = load(pid)
            boot.warm(prop)
            prop.setup()
            logs = []
            for procs in (8, 3):
                got = {}
                run_batch(prop, seed, runs, procs, 600, lambda r: got.__setitem__(r["i"], (r["verdict"], r.get("loghash"), r.get("sig"))))
                logs.append(got)
            diff = [i for i in range(runs) if logs[0].get(i) != logs[1].get(i)]
            print(f"{pid}: {runs} runs twice, {len(diff)} differ {diff[:5]}", [(logs[0].get(i), logs[1].get(i)) for i in diff[:2]])
            sys.stdout.flush()
            prop.teardown()
            os._exit(1 if diff else 0)
        _, st = os.wait()
        bad += st != 0
    sys.exit(1 if bad else 0)
