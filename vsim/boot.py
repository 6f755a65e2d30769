"""Process set-up: fixed environment, imports, seams installed before geocat.comp."""

import os
import sys
import warnings

REPO = os.environ.get("VSIM_REPO", "/repo")
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))

ENV = {
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMEXPR_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "TZ": "UTC",
    "LC_ALL": "C.UTF-8",
    "MPLBACKEND": "Agg",
    "MPLCONFIGDIR": "/tmp",
}


def reexec(argv, extra=None):
    """Start over under the fixed environment (once)."""
    if os.environ.get("VSIM_BOOTED") == "1":
        return
    env = {
        k: v
        for k, v in os.environ.items()
        if not k.startswith(("PYTHON", "DASK", "OMP", "MKL", "NUMBA", "XARRAY"))
    }
    for k, v in ENV.items():
        if k == "PYTHONHASHSEED" and "VSIM_HASHSEED" in os.environ:
            v = os.environ["VSIM_HASHSEED"]
        env[k] = v
    env["VSIM_BOOTED"] = "1"
    env.update(extra or {})
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-W", "ignore"] + argv, env)


_warmed = False


def warm(prop=None):
    """Import the whole stack from the repository's working tree."""
    global _warmed
    if _warmed:
        return
    _warmed = True
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import numpy, xarray, dask, dask.array, pandas, scipy, metpy, metpy.interpolate  # noqa
    import xskillscore, eofs.xarray, uxarray, cftime, cloudpickle  # noqa

    try:
        for line in open(os.path.join(HERE, "lazy_modules.txt")):
            m = line.strip()
            if m:
                try:
                    __import__(m)
                except Exception:
                    pass
    except FileNotFoundError:
        pass
    from . import locks, threads

    locks.install()
    locks.adopt()
    threads._foreign_regions()
    import geocat.comp

    f = os.path.abspath(geocat.comp.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f"geocat.comp was imported from {f}, not from {REPO}")
    from . import uxstub

    uxstub.install()
    uxstub.grid()
