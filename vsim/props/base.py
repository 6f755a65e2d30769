"""Common part of all properties."""

from .. import catalog

REAL = [
    "geocat.comp (working tree of /repo)",
    "numpy, xarray, dask collections and graph construction/optimisation, metpy, xskillscore, eofs, scipy",
]
STUB = [
    "dask scheduler/executor (vsim.daskexec)",
    "uxarray zonal_mean (fixed linear operator, vsim.uxstub)",
]


class Prop:
    id = None
    rule = ""
    measure = "hash of the sequence of scheduled events of a run"
    runs = {"quick": 200, "thorough": 2000}
    wall = {"quick": 240, "thorough": 3000}
    real = REAL
    stub = STUB
    assumptions = []
    weights = {}  # operation -> share of the runs, where it is not 1/cost

    def setup(self):
        """In the zygote, after imports, before any run."""

    def teardown(self):
        """In the zygote, at the end."""

    def gen(self, r, i):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def shrink(self, plan):
        return ()

    def extend_evidence(self, ev, agg):
        pass

    # -- helpers
    def pick_op(self, r, names, i):
        """Every operation gets its turn; then at random."""
        if i < 2 * len(names):
            return names[i % len(names)]
        w = [self.weights.get(n, 1.0 / catalog.OPS[n].cost) for n in names]
        return r.choices(names, w)[0]


def shrink_params(op, params):
    """Smaller parameter records of one operation."""
    for k, v in list(params.items()):
        if k == "seed":
            if v:
                yield {**params, k: 0}
            continue
        if isinstance(v, bool):
            if v:
                yield {**params, k: False}
        elif isinstance(v, int) and v > 1:
            yield {**params, k: v - 1}
        elif isinstance(v, float) and k == "nan" and v:
            yield {**params, k: 0}
        elif isinstance(v, list) and v and all(isinstance(x, int) for x in v):
            if len(v) > 1 and k == "shape":
                yield {**params, k: v[1:]}
            for j, x in enumerate(v):
                if x > 1:
                    yield {**params, k: v[:j] + [x - 1] + v[j + 1 :]}
