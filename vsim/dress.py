"""Argument forms: views into larger arrays, read-only memory, Fortran order, metadata."""

import numpy as np

from . import compare


def _xr():
    import xarray as xr

    return xr


class Dressed:
    """Inputs of a call plus everything of the caller's that must stay as it is."""

    def __init__(self):
        self.inputs = {}
        self.owned = []  # (label, object) whose digest must not change

    def digests(self):
        return [(n, compare.digest(o), flags(o)) for n, o in self.owned]


def flags(o):
    xr = _xr()
    if isinstance(o, np.ndarray):
        return (o.flags.writeable, o.strides, o.shape)
    if isinstance(o, xr.DataArray) and isinstance(o.variable._data, np.ndarray):
        return (o.variable._data.flags.writeable, o.shape)
    return None


def form(a, how):
    """Re-house a numpy array; returns (array, base or None)."""
    if not isinstance(a, np.ndarray) or a.ndim == 0 or a.dtype.kind == "O":
        return a, None
    if how == "view":
        base = np.full(tuple(2 * n + 3 for n in a.shape), -777, a.dtype)
        sl = tuple(slice(1, 1 + 2 * n, 2) for n in a.shape)
        v = base[sl]
        v[...] = a
        return v, base
    if how == "slice":
        base = np.full((a.shape[0] + 2,) + a.shape[1:], -777, a.dtype)
        v = base[1:-1]
        v[...] = a
        return v, base
    if how == "reversed":
        base = np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])
        return base[tuple(slice(None, None, -1) for _ in a.shape)], base
    if how == "fortran":
        return np.asfortranarray(a), None
    if how == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b, None
    return a, None


FORMS = ["plain", "plain", "view", "slice", "fortran", "readonly", "reversed"]


def dress(inputs, how="plain", rich=False):
    xr = _xr()
    out = Dressed()
    for k, v in inputs.items():
        if isinstance(v, np.ndarray):
            b, base = form(v, how)
            out.inputs[k] = b
            out.owned.append((k, b))
            if base is not None:
                out.owned.append((f"array {k} is a view of", base))
        elif isinstance(v, xr.DataArray):
            w = v
            if isinstance(v.variable._data, np.ndarray):
                b, base = form(v.variable._data, how)
                w = v.copy(deep=False, data=b)
                w.attrs = dict(v.attrs)
                if base is not None:
                    out.owned.append((f"array {k} is a view of", base))
            if rich:
                w.attrs.update(history=["made", {"by": "caller"}], level=np.arange(3.0))
                w.encoding = {"dtype": "f4", "zlib": True}
                for c in w.coords:
                    w.coords[c].attrs.setdefault("comment", "c")
            out.inputs[k] = w
            out.owned.append((k, w))
        elif isinstance(v, xr.Dataset):
            if rich:
                v.attrs.update(history=["made", {"by": "caller"}])
                for n in v.data_vars:
                    v[n].encoding = {"zlib": True}
            out.inputs[k] = v
            out.owned.append((k, v))
        else:
            out.inputs[k] = v
            out.owned.append((k, v))
    out.owned.append(("argument table", out.inputs))
    return out


def damage(inp, k):
    """Arguments that make most calls fail."""
    out = dict(inp)
    n = list(out)[k % len(out)]
    v = out[n]
    xr = _xr()
    if isinstance(v, xr.DataArray) and v.ndim:
        out[n] = v.rename({v.dims[0]: "elsewhere"}) if k % 2 else v.isel({v.dims[-1]: slice(0, 1)})
    elif isinstance(v, xr.Dataset):
        out[n] = v.drop_vars([list(v.data_vars)[0]])
    elif isinstance(v, np.ndarray) and v.ndim:
        out[n] = v[:1] if k % 2 else v.astype(object)
    else:
        out[n] = None
    return out
