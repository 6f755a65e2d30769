"""Snapshot of process-wide state that callers and other libraries rely on."""

import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import time
import warnings

import numpy as np


def _filters():
    return [(a, getattr(m, "pattern", m), c.__name__, getattr(mod, "pattern", mod), ln)
            for a, m, c, mod, ln in warnings.filters]


def _dask():
    import dask

    return repr(sorted((k, repr(v)) for k, v in dask.config.config.items() if k != "scheduler"))


def _xropts():
    import xarray as xr

    return repr(sorted((k, repr(v)) for k, v in xr.get_options().items()))


def _pandas():
    import pandas as pd

    out = []
    for k in (
        "mode.copy_on_write", "display.max_rows", "display.precision", "display.max_columns",
        "mode.chained_assignment", "future.infer_string", "compute.use_bottleneck",
        "compute.use_numexpr", "display.float_format", "mode.string_storage",
    ):
        try:
            out.append((k, repr(pd.get_option(k))))
        except Exception:
            pass
    return out


def _signals():
    out = []
    for s in ("SIGINT", "SIGTERM", "SIGALRM", "SIGUSR1", "SIGUSR2", "SIGHUP", "SIGPIPE", "SIGFPE", "SIGCHLD"):
        out.append((s, repr(signal.getsignal(getattr(signal, s)))))
    out.append(("itimer", signal.getitimer(signal.ITIMER_REAL)))
    return out


def _fds():
    out = []
    for f in sorted(os.listdir("/proc/self/fd"), key=int):
        try:
            out.append((f, os.readlink(f"/proc/self/fd/{f}")))
        except OSError:
            pass
    return out


def _threads():
    return sorted(t.name for t in threading.enumerate() if not t.name.startswith("vsim-"))


def _loggers():
    r = logging.getLogger()
    # a logger that comes into being in between (the standard library makes "py.warnings" on the
    # first captured warning) is no change of what was there: a dictionary compares only those
    out = {"root": (r.level, len(r.handlers), logging.root.manager.disable)}
    for n in ("geocat", "geocat.comp", "xarray", "dask", "metpy", "py.warnings"):
        g = logging.Logger.manager.loggerDict.get(n)
        if isinstance(g, logging.Logger):
            out[n] = (g.level, len(g.handlers), g.disabled, g.propagate)
    return out


def _class_state():
    """Methods of widely used third-party classes and modules."""
    import dask.array
    import metpy.interpolate
    import pandas
    import xarray as xr
    import xskillscore

    out = {}
    for c in (
        xr.DataArray, xr.Dataset, xr.Variable, xr.IndexVariable, xr, np, np.linalg, np.fft,
        dask.array, dask.array.Array, metpy.interpolate, pandas, pandas.DatetimeIndex,
        warnings, xskillscore, pandas.Index, pandas.Series, time, os, random,
    ):
        for k, v in list(vars(c).items()):
            if k.startswith("__") and k.endswith("__") and k not in ("__init__", "__array_priority__"):
                continue
            if isinstance(v, (bool, int, float, str, tuple, type(None))) or callable(v) or isinstance(
                v, (classmethod, staticmethod, property)
            ):
                out[f"{c.__name__}.{k}"] = id(v)
    return out


def _simple(v):
    return repr(v)


class World:
    """Taken before; `diff` lists what is different now."""

    KEYS = {
        "warning filters": _filters,
        "warnings.showwarning": lambda: id(warnings.showwarning),
        "warnings._showwarnmsg": lambda: id(warnings._showwarnmsg_impl),
        "numpy error state": lambda: repr((np.geterr(), repr(np.geterrcall()))),
        "numpy print options": lambda: repr(sorted(np.get_printoptions().items(), key=str)),
        "numpy buffer size": lambda: np.getbufsize(),
        "xarray options": _xropts,
        "dask configuration": _dask,
        "pandas options": _pandas,
        "random state": lambda: hash(random.getstate()),
        "numpy random state": lambda: repr([
            x.tobytes() if isinstance(x, np.ndarray) else x for x in np.random.get_state()
        ]),
        "environment": lambda: repr(sorted(os.environ.items())),
        "working directory": os.getcwd,
        "umask": lambda: _umask(),
        "signal handlers": _signals,
        "locale": lambda: locale.setlocale(locale.LC_ALL, None),
        "time zone": lambda: time.tzname,
        "threads": _threads,
        "trace functions": lambda: repr((sys.gettrace(), sys.getprofile(), threading.gettrace(), threading.getprofile())),
        "standard streams": lambda: (id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.__stdout__)),
        "hooks": lambda: (id(sys.excepthook), id(sys.unraisablehook), id(sys.displayhook), id(threading.excepthook)),
        "decimal context": lambda: repr(decimal.getcontext().copy().clear_flags() or (
            decimal.getcontext().prec, decimal.getcontext().rounding, decimal.getcontext().traps)),
        "gc": lambda: (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "recursion limit": sys.getrecursionlimit,
        "switch interval": sys.getswitchinterval,
        "module search path": lambda: tuple(sys.path),
        "open files": _fds,
        "loggers": _loggers,
        "third-party classes and modules": _class_state,
    }

    def __init__(self):
        self.was = self.take()

    def take(self):
        out = {}
        for k, f in self.KEYS.items():
            out[k] = f()
        return out

    def diff(self):
        now = self.take()
        out = []
        for k, v in self.was.items():
            w = now[k]
            if v == w:
                continue
            if isinstance(v, dict):
                ch = sorted(x for x in set(v) | set(w) if v.get(x) != w.get(x))
                # additions by imports of submodules are not a change of state
                ch = [x for x in ch if x in v]
                if ch:
                    out.append(f"{k}: {', '.join(ch[:4])}")
                continue
            out.append(f"{k}: {short(v)} -> {short(w)}")
        return out


def short(v, n=150):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u
