"""Per operation: how runs of a property end (debugging aid)."""
import sys, os, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vsim import boot
boot.reexec([os.path.abspath(__file__)] + sys.argv[1:])
from vsim import runner
p = runner.load(sys.argv[1]); n = int(sys.argv[2])
os.environ["VERIF_SEED"] = "1"
boot.warm(p); p.setup()
c = collections.defaultdict(collections.Counter)
def on(r):
    i = r.get("info", {})
    op = i.get("op")
    c[op]["n"] += 1
    c[op]["nontriv"] += bool(i.get("nontrivial"))
    c[op]["lazy"] += bool(r["stats"].get("lazy_results"))
    c[op]["err"] += bool(r["stats"].get("error_cases"))
    c[op]["wall"] += r.get("wall", 0)
runner.run_batch(p, 1, n, 8, 600, on)
for op, k in sorted(c.items(), key=str):
    print(op, {a: round(b, 1) for a, b in k.items()})
p.teardown()
sys.stdout.flush(); os._exit(0)
