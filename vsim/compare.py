"""Comparison and digests of inputs and outputs (values, structure, metadata)."""

import hashlib

import numpy as np


def _xr():
    import xarray as xr

    return xr


class Diff(Exception):
    pass


# magnitude below which differences are rounding, set per comparison by `same`
FLOOR = 0.0


def _cmp_num(path, a, b, rtol, exact):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype:
        raise Diff(f"{path}: dtype {a.dtype} != {b.dtype}")
    if a.shape != b.shape:
        raise Diff(f"{path}: shape {a.shape} != {b.shape}")
    if a.dtype.kind in "fc":
        if exact:
            ok = np.array_equal(a, b, equal_nan=True)
            if not ok:
                bad = ~((a == b) | (np.isnan(a) & np.isnan(b)))
                raise Diff(f"{path}: values differ at {int(bad.sum())} of {a.size} cells")
            return
        na, nb = np.isnan(a), np.isnan(b)
        if (na != nb).any():
            raise Diff(f"{path}: NaN pattern differs at {int((na != nb).sum())} of {a.size} cells")
        fin = ~na & np.isfinite(a) & np.isfinite(b)
        inf = ~na & ~fin
        if inf.any() and not np.array_equal(a[inf], b[inf]):
            raise Diff(f"{path}: infinities differ")
        if fin.any():
            x, y = a[fin], b[fin]
            scale = max(FLOOR, float(np.max(np.abs(x))) if x.size else 0.0)
            eps = np.finfo(a.dtype).eps
            r = max(rtol, 64 * eps)
            err = np.abs(x - y)
            tol = r * np.abs(x) + r * scale
            if (err > tol).any():
                k = int(np.argmax(err - tol))
                raise Diff(
                    f"{path}: values differ, e.g. {x.ravel()[k]!r} vs {y.ravel()[k]!r}"
                    f" ({int((err > tol).sum())} of {a.size} cells)"
                )
        return
    if a.dtype.kind == "O":
        if not all(_eq(u, v) for u, v in zip(a.ravel(), b.ravel())):
            raise Diff(f"{path}: object values differ")
        return
    if not np.array_equal(a, b):
        # NaT compares unequal to itself
        if a.dtype.kind in "mM" and np.array_equal(a.view("i8"), b.view("i8")):
            return
        raise Diff(f"{path}: values differ")


def _eq(u, v):
    try:
        return bool(u == v) or (u != u and v != v)
    except Exception:
        return repr(u) == repr(v)


def _cmp_attrs(path, a, b, rtol, exact):
    if list(a) != list(b) and set(a) != set(b):
        raise Diff(f"{path}: attribute names {sorted(map(str, a))} != {sorted(map(str, b))}")
    for k in a:
        compare(a[k], b[k], rtol, exact, f"{path}.attrs[{k!r}]")


def compare(a, b, rtol=1e-9, exact=False, path="result"):
    """Raise Diff unless the two results are the same thing."""
    xr = _xr()
    if isinstance(a, xr.DataArray) or isinstance(b, xr.DataArray):
        if type(a) is not type(b):
            raise Diff(f"{path}: type {type(a).__name__} != {type(b).__name__}")
        if a.dims != b.dims:
            raise Diff(f"{path}: dims {a.dims} != {b.dims}")
        if a.name != b.name:
            raise Diff(f"{path}: name {a.name!r} != {b.name!r}")
        _cmp_num(path, a.values, b.values, rtol, exact)
        _cmp_attrs(path, a.attrs, b.attrs, rtol, exact)
        _cmp_coords(path, a, b, rtol, exact)
        return
    if isinstance(a, xr.Dataset) or isinstance(b, xr.Dataset):
        if type(a) is not type(b):
            raise Diff(f"{path}: type {type(a).__name__} != {type(b).__name__}")
        if set(a.data_vars) != set(b.data_vars):
            raise Diff(f"{path}: variables {sorted(a.data_vars)} != {sorted(b.data_vars)}")
        for k in a.data_vars:
            va, vb = a[k].variable, b[k].variable
            if va.dims != vb.dims:
                raise Diff(f"{path}[{k}]: dims {va.dims} != {vb.dims}")
            _cmp_num(f"{path}[{k}]", va.values, vb.values, rtol, exact)
            _cmp_attrs(f"{path}[{k}]", va.attrs, vb.attrs, rtol, exact)
        _cmp_attrs(path, a.attrs, b.attrs, rtol, exact)
        _cmp_coords(path, a, b, rtol, exact)
        return
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            raise Diff(f"{path}: {type(a).__name__} of {len(a)} vs {type(b).__name__}")
        for i, (u, v) in enumerate(zip(a, b)):
            compare(u, v, rtol, exact, f"{path}[{i}]")
        return
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            raise Diff(f"{path}: {sorted(map(str, a))} != {sorted(map(str, b))}")
        for k in a:
            compare(a[k], b[k], rtol, exact, f"{path}.{k}")
        return
    if a is None or b is None:
        if a is not b:
            raise Diff(f"{path}: {type(a).__name__} vs {type(b).__name__}")
        return
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b):
            raise Diff(f"{path}: type {type(a).__name__} != {type(b).__name__}")
        _cmp_num(path, a, b, rtol, exact)
        return
    if isinstance(a, (float, int, complex, np.generic)) and isinstance(
        b, (float, int, complex, np.generic)
    ):
        if type(a) is not type(b):
            raise Diff(f"{path}: type {type(a).__name__} != {type(b).__name__}")
        _cmp_num(path, np.asarray(a), np.asarray(b), rtol, exact)
        return
    if not _eq(a, b):
        raise Diff(f"{path}: {a!r} != {b!r}")


def _cmp_coords(path, a, b, rtol, exact):
    if set(a.coords) != set(b.coords):
        raise Diff(f"{path}: coords {sorted(a.coords)} != {sorted(b.coords)}")
    for k in a.coords:
        va, vb = a.coords[k].variable, b.coords[k].variable
        if va.dims != vb.dims:
            raise Diff(f"{path}.{k}: dims {va.dims} != {vb.dims}")
        _cmp_num(f"{path}.{k}", va.values, vb.values, rtol, exact)
        _cmp_attrs(f"{path}.{k}", va.attrs, vb.attrs, rtol, exact)


def portable(x):
    """A picklable plain form of a result, holding all that `compare` looks at."""
    xr = _xr()
    if isinstance(x, xr.DataArray):
        return {
            "type": type(x).__name__,
            "dims": tuple(x.dims),
            "name": x.name,
            "values": np.array(x.values),
            "attrs": {k: portable(v) for k, v in x.attrs.items()},
            "coords": _pcoords(x),
        }
    if isinstance(x, xr.Dataset):
        return {
            "type": type(x).__name__,
            "vars": {
                str(k): {
                    "dims": tuple(x[k].dims),
                    "values": np.array(x[k].variable.values),
                    "attrs": {a: portable(v) for a, v in x[k].attrs.items()},
                }
                for k in sorted(x.data_vars, key=str)
            },
            "attrs": {k: portable(v) for k, v in x.attrs.items()},
            "coords": _pcoords(x),
        }
    if isinstance(x, (list, tuple)):
        return type(x)(portable(u) for u in x)
    if isinstance(x, dict):
        return {k: portable(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return np.array(x)
    return x


def isel(p, d, a, b):
    """The cells [a, b) along a dimension of a portable result."""

    def part(v):
        if d not in v["dims"]:
            return v
        k = [slice(None)] * len(v["dims"])
        k[v["dims"].index(d)] = slice(a, b)
        return {**v, "values": v["values"][tuple(k)]}

    q = part(p) if "dims" in p else dict(p, vars={k: part(v) for k, v in p["vars"].items()})
    return {**q, "coords": {k: part(v) for k, v in p["coords"].items()}}


def largest(p):
    """The largest magnitude in a portable result."""
    vs = [p["values"]] if "dims" in p else [v["values"] for v in p["vars"].values()]
    out = 0.0
    for v in vs:
        if v.dtype.kind in "fc" and np.isfinite(v).any():
            out = max(out, float(np.max(np.abs(v[np.isfinite(v)]))))
    return out


def _pcoords(x):
    return {
        str(k): {
            "dims": tuple(x.coords[k].dims),
            "values": np.array(x.coords[k].variable.values),
            "attrs": {a: portable(v) for a, v in x.coords[k].attrs.items()},
        }
        for k in sorted(x.coords, key=str)
    }


def portable_outcome(kind, value):
    if kind == "ok":
        return ("ok", portable(value))
    return ("err", type(value).__name__, str(value)[:300])


def same(a, b, rtol=1e-9, exact=False, floor=0.0):
    """None, or a description of the first difference.

    A value differs when it is off by more than rtol of itself plus rtol of the
    largest value of the array (or of `floor`, when that is larger: results that
    are differences of larger numbers)."""
    global FLOOR
    FLOOR = floor
    try:
        compare(a, b, rtol, exact)
    except Diff as e:
        return str(e)
    finally:
        FLOOR = 0.0
    return None


def tolerances(op, params, case):
    """rtol and floor for results that may be rounded differently."""
    rtol = 4e-5 if params.get("dtype") == "f4" else 1e-9
    floor = 0.0
    if op.family == "climatologies":
        xr = _xr()
        for v in case.inputs.values():
            arrs = v.data_vars.values() if isinstance(v, xr.Dataset) else [v]
            for a in arrs:
                if getattr(a, "dtype", None) is not None and a.dtype.kind == "f" and a.size:
                    m = float(np.nanmax(np.abs(a.values))) if np.isfinite(a.values).any() else 0.0
                    floor = max(floor, m)
    return {"rtol": rtol, "floor": floor}


# ------------------------------------------------------------------- digests
def _feed(h, x, path, data=True):
    xr = _xr()
    if isinstance(x, xr.DataArray):
        h.update(b"DA")
        h.update(repr((x.dims, x.name)).encode())
        _feed_var(h, x.variable, data)
        _feed_coords(h, x, data)
    elif isinstance(x, xr.Dataset):
        h.update(b"DS")
        h.update(repr(list(x.data_vars)).encode())
        for k in x.data_vars:
            h.update(repr((k, x[k].dims)).encode())
            _feed_var(h, x.variables[k], data)
        _feed_attrs(h, x.attrs, data)
        _feed_coords(h, x, data)
    elif isinstance(x, np.ndarray):
        h.update(repr((x.dtype.str, x.shape)).encode())
        if data:
            if x.dtype.kind == "O":
                h.update(repr([repr(u) for u in x.ravel()]).encode())
            else:
                h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        h.update(b"{")
        for k, v in x.items():
            h.update(repr(k).encode())
            _feed(h, v, path, data)
        h.update(b"}")
    elif isinstance(x, (list, tuple)):
        h.update(type(x).__name__.encode())
        for v in x:
            _feed(h, v, path, data)
    else:
        h.update(type(x).__name__.encode())
        h.update(repr(x).encode())


def _feed_attrs(h, attrs, data):
    h.update(b"@")
    _feed(h, dict(attrs), "attrs", data)


def _feed_var(h, v, data):
    d = v._data
    if type(d).__module__.startswith("dask"):
        h.update(repr(("dask", d.name, d.chunks, str(d.dtype))).encode())
    elif hasattr(d, "vsim_digest"):
        h.update(repr(d.vsim_digest()).encode())
    else:
        _feed(h, np.asarray(v.values), "v", data)
    _feed_attrs(h, v.attrs, data)
    h.update(repr(sorted(map(str, v.encoding.items()))).encode())


def _feed_coords(h, x, data):
    h.update(repr(list(x.coords)).encode())
    for k in x.coords:
        v = x.coords[k].variable
        h.update(repr((k, v.dims)).encode())
        _feed_var(h, v, data)
    h.update(repr(sorted(map(str, x.xindexes))).encode())


def digest(x):
    h = hashlib.blake2b(digest_size=12)
    _feed(h, x, "")
    return h.hexdigest()


def outcome_digest(kind, value):
    return kind + ":" + (digest(value) if kind == "ok" else str(value))
