"""Write MANIFEST.json from properties.jsonl (run by hand when the list changes)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "Differential against the in-memory call, over seeded chunk layouts, calendars, containers and task schedules.",
 "C02": "Differential against the in-memory call, over seeded chunk layouts of every argument and task schedules.",
 "C03": "Differential against the in-memory call, over seeded chunk layouts of every argument and task schedules.",
 "C04": "Differential against the in-memory call, over seeded chunk layouts of every argument and task schedules. EOF functions (SVD of eofs/dask) are left out.",
 "C05": "Real graphs executed in forked pristine worker processes under seeded crashes, losses, duplicates, late deliveries; inputs read-only; oracle is the fault-free run.",
 "C06": "Simulated storage with seeded error kinds, places and durations; oracle is the fault-free call and the error's cause chain.",
 "C07": "Real threads released one at a time at seeded source-line switch points; oracle is each call alone; deadlock and progress bounds.",
 "C08": "Digest of every argument before and after, with seeded interrupts at source lines and task boundaries.",
 "C09": "Snapshot of process-wide state before and after, with seeded interrupts and thread interleavings.",
 "C10": "Seeded histories of calls in one process against the same call in a fresh process.",
 "C11": "The same call in five fresh interpreters whose hash seed, clock, time zone, locale, directory and random state are simulated; bitwise comparison.",
 "C12": "Simulated storage counts reads and is unavailable during the call; correct after it returns.",
 "C14": "Stop requests and failures raised at seeded source lines of the library; oracle is the exception's identity or chain and the undisturbed call.",
 "C15": "Seeded histories of calls ending in every way, then weak references to arguments and results and the memory of arrays.",
 "C16": "Real forks at seeded moments of simulated threads and after seeded histories; oracle is each call in a fresh process; locks report vanished holders.",
 "C17": "Simulated storage with unreadable ranges of blocks; pieces outside them must compute and equal the in-memory result.",
 "C13": "Seeded groups of lazy results and steps (together, pieces, persist, pickle, failures) against each result alone in its own process.",
}
na = "A pure function of the arguments of one call: no schedule, clock, I/O, fault or history enters it, so there is nothing for a simulator to control; sampling inputs would be plain property testing. "
NA = {
 "C20": "The chunked and scheduled side of climatologies is decided by C01.",
 "C21": "The chunked and scheduled side of month_to_season is decided by C01.",
 "C22": "The chunked and scheduled side of vertical interpolation is decided by C02.",
 "C23": "The chunked and scheduled side is decided by C02 and C03.",
 "C24": "The chunked side of interp_multidim is decided by C02.",
 "C25": "The chunked side of the filters is decided by C04.",
 "C26": "The chunked side of the transforms is decided by C04.",
 "C27": "The chunked side of the thermodynamic functions is decided by C03.",
 "C28": "The chunked side of the scores is decided by C04.",
 "C29": "The chunked side of gradient is decided by C04.",
 "C30": "That chunked input is rejected like in-memory input is part of C01-C04.",
 "C31": "The chunked side of the streamfunction is decided by C03.",
}
checks, nas = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(line)["id"]
    if i in NOTE:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection (seeded search, minimised replay)",
            "level": "exploration",
            "level_note": NOTE[i] + " Exploration of seeded runs, not a proof; trusts numpy, xarray, dask collections and Python as installed.",
        })
    else:
        nas.append({"property": i, "reason": na + NA[i]})
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py selftest",
    "checks": checks,
    "not_applicable": nas,
    "notes": "No hooks in /repo: the simulator uses the dask scheduler seam, the arrays passed in, interpreter line events and LD_PRELOAD. Replay: python3 check.py replay FILE. known_findings.txt lists findings and fixes.",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
