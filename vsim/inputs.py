"""Turning the in-memory inputs of a case into chunked, lazily read, or otherwise
dressed ones; every function is a pure function of JSON-able parameters."""

import numpy as np


def _xr():
    import xarray as xr

    return xr


def is_xr(v):
    xr = _xr()
    return isinstance(v, (xr.DataArray, xr.Dataset))


def split(r, n, style):
    """A division of n cells into blocks."""
    if n == 0:
        return [0]
    if style == "one":
        return [n]
    if style == "cells":
        return [1] * n
    if style == "even":
        k = r.randint(1, n)
        return [k] * (n // k) + ([n % k] if n % k else [])
    if style == "tail":  # a long block and a single cell
        return [n] if n == 1 else [n - 1, 1]
    if style == "head":
        return [n] if n == 1 else [1, n - 1]
    out, left = [], n
    while left:
        q = r.randint(1, left)
        out.append(q)
        left -= q
    return out


STYLES = ["one", "cells", "even", "even", "uneven", "uneven", "tail", "head"]


def gen_chunks(r, inputs, mode=None, max_blocks=120):
    """Chunk layouts for a random subset of the labelled inputs."""
    names = [k for k, v in inputs.items() if is_xr(v)]
    if not names:
        return {}
    mode = mode or r.choice(["all", "all", "all", "subset", "one", "main"])
    if mode == "subset":
        sel = [k for k in names if r.random() < 0.5] or [r.choice(names)]
    elif mode == "one":
        sel = [r.choice(names)]
    elif mode == "main":
        sel = names[:1]
    else:
        sel = names
    shared = {}
    align = r.random() < 0.6
    out = {}
    for k in sel:
        v = inputs[k]
        ch = {}
        nb = 1
        for d, n in v.sizes.items():
            if align and (d, n) in shared:
                c = shared[(d, n)]
            else:
                c = split(r, n, r.choice(STYLES))
                if n > 100 and len(c) > 12:  # long axes: few blocks
                    c = split(r, n, "tail")
                if nb * len(c) > max_blocks:
                    c = [n]
                shared[(d, n)] = c
            nb *= len(c)
            ch[str(d)] = c
        out[k] = ch
    return out


def chunk_inputs(inputs, chunks):
    out = {}
    for k, v in inputs.items():
        if k in chunks and is_xr(v):
            out[k] = v.chunk({d: tuple(c) for d, c in chunks[k].items() if d in v.dims})
        else:
            out[k] = v
    return out


def shrink_chunks(chunks):
    """Simpler chunk layouts."""
    for k in list(chunks):
        yield {a: b for a, b in chunks.items() if a != k}
    for k in chunks:
        for d, c in chunks[k].items():
            if len(c) > 1:
                yield {**chunks, k: {**chunks[k], d: [sum(c)]}}
    for k in chunks:
        for d, c in chunks[k].items():
            if len(c) > 2:
                yield {**chunks, k: {**chunks[k], d: [c[0], sum(c[1:])]}}
                yield {**chunks, k: {**chunks[k], d: [sum(c[:-1]), c[-1]]}}


def is_lazy(v):
    """Is any data of this result (not its coordinates) a dask collection?"""
    import dask

    xr = _xr()
    if isinstance(v, xr.DataArray):
        return dask.is_dask_collection(v.variable)
    if isinstance(v, xr.Dataset):
        return any(dask.is_dask_collection(v[k].variable) for k in v.data_vars)
    if isinstance(v, (list, tuple)):
        return any(is_lazy(u) for u in v)
    return dask.is_dask_collection(v)


def any_lazy(v):
    import dask

    xr = _xr()
    if isinstance(v, (xr.DataArray, xr.Dataset)):
        return dask.is_dask_collection(v)
    if isinstance(v, (list, tuple)):
        return any(any_lazy(u) for u in v)
    return dask.is_dask_collection(v)


def compute(v, **kw):
    """Compute whatever is lazy in a result."""
    if isinstance(v, (list, tuple)):
        return type(v)(compute(u, **kw) for u in v)
    if any_lazy(v):
        return v.compute(**kw)
    return v


def outcome(f):
    """('ok', value) or ('err', exception); faults of the harness pass through."""
    from .kernel import Inconclusive, Violation

    try:
        return "ok", f()
    except (Violation, Inconclusive):
        raise
    except Exception as e:
        return "err", e


def err_kind(e):
    return type(e).__name__


def same_error(a, b):
    ta, tb = type(a), type(b)
    return issubclass(ta, tb) or issubclass(tb, ta)


def describe(e, n=160):
    s = str(e).replace("\n", " ")
    return f"{type(e).__name__}: {s[:n]}"


def n_blocks(chunks):
    m = 0
    for c in chunks.values():
        b = 1
        for v in c.values():
            b *= len(v)
        m = max(m, b)
    return m


def asnp(x):
    return np.asarray(x)
