"""Storage behind arguments: simulated files read lazily, with faults and a read count."""

import errno
import zlib

import numpy as np

ERRORS = {
    "EIO": lambda m: OSError(errno.EIO, m),
    "ENOENT": lambda m: FileNotFoundError(errno.ENOENT, m),
    "HDF": lambda m: RuntimeError(f"NetCDF: HDF error {m}"),
    "codec": lambda m: ValueError(f"cannot decode chunk {m}"),
    "zlib": lambda m: zlib.error(f"Error -3 while decompressing data {m}"),
    "timeout": lambda m: TimeoutError(f"read timed out {m}"),
    "memory": lambda m: MemoryError(m),
    "key": lambda m: KeyError(m),
    "index": lambda m: IndexError(m),
    "type": lambda m: TypeError(m),
    "arithmetic": lambda m: FloatingPointError(m),
}
MARK = "vsim-read-fault"


class Store:
    """All simulated files of a run share one: reads are numbered across them."""

    def __init__(self, ctx=None):
        self.ctx = ctx
        self.reads = 0
        self.cells = 0
        self.offline = False
        self.first, self.count = None, 0  # reads [first, first+count) fail
        self.only = None  # or: reads of this array fail
        self.kind = "EIO"
        self.failed = 0
        self.files = 0
        self.log = []

    def break_reads(self, kind, first, count):
        self.kind, self.first, self.count = kind, first, count

    def heal(self):
        self.first, self.count, self.offline = None, 0, False

    def read(self, name, data, key):
        k = self.reads
        self.reads += 1
        bad = self.offline or (self.first is not None and self.first <= k < self.first + self.count)
        if self.ctx is not None:
            self.ctx.event("read", name, str(key)[:80], bad)
        if bad:
            self.failed += 1
            e = ERRORS[self.kind](f"{MARK}-{k} reading {name}")
            raise e
        out = np.array(data[key])
        self.cells += out.size
        return out


class Source:
    """What dask.array.from_array reads blocks of."""

    def __init__(self, store, name, data):
        self.store, self.name, self.data = store, name, data
        self.shape, self.dtype, self.ndim = data.shape, data.dtype, data.ndim

    def __getitem__(self, key):
        return self.store.read(self.name, self.data, key)

    def __array__(self, dtype=None, copy=None):
        return self.store.read(self.name, self.data, Ellipsis)


_backend = None


def backend_class():
    global _backend
    if _backend is None:
        from xarray.backends import BackendArray
        from xarray.core import indexing

        class SimBackend(BackendArray):
            def __init__(self, store, name, data):
                self.store, self.name, self.data = store, name, data
                self.shape, self.dtype = data.shape, data.dtype

            def __getitem__(self, key):
                return indexing.explicit_indexing_adapter(
                    key, self.shape, indexing.IndexingSupport.OUTER,
                    lambda k: self.store.read(self.name, self.data, self._np(k)),
                )

            def _np(self, k):
                if sum(isinstance(x, np.ndarray) for x in k) > 1:
                    # outer indexing, as netCDF does it
                    idx, squeeze = [], []
                    for j, (x, n) in enumerate(zip(k, self.shape)):
                        if isinstance(x, slice):
                            idx.append(np.arange(n)[x])
                        elif np.ndim(x) == 0:
                            idx.append(np.array([x]))
                            squeeze.append(j)
                        else:
                            idx.append(x)
                    if squeeze:
                        raise NotImplementedError
                    return np.ix_(*idx)
                return k

        _backend = SimBackend
    return _backend


def lazy_variable(store, name, var, how, chunks=None, tag=""):
    """An xarray Variable whose values are in the store."""
    import dask.array as da
    import xarray as xr
    from xarray.core import indexing

    data = np.asarray(var.values)
    store.files += 1
    if how == "dask":
        ch = tuple(tuple(chunks[str(d)]) if chunks and str(d) in chunks else (n,) for d, n in zip(var.dims, data.shape))
        arr = da.from_array(
            Source(store, name, data), chunks=ch, name=f"file-{tag}{name}", asarray=False, fancy=False,
            meta=np.empty((0,) * data.ndim, data.dtype),
        )
        return xr.Variable(var.dims, arr, dict(var.attrs), dict(var.encoding))
    lazy = indexing.LazilyIndexedArray(backend_class()(store, name, data))
    lazy = indexing.CopyOnWriteArray(lazy)
    if how == "cached":
        lazy = indexing.MemoryCachedArray(lazy)
    out = xr.Variable(var.dims, lazy, dict(var.attrs), dict(var.encoding))
    if how == "chunked":
        ch = {d: tuple(chunks[str(d)]) if chunks and str(d) in chunks else -1 for d in var.dims}
        out = out.chunk(ch, name=f"file-{tag}{name}-", lock=False)
    return out


def lazy_inputs(store, inputs, layout, tag=""):
    """layout: {input name: {"how": dask|chunked|cached|plain, "chunks": {...}, "coords": bool}}."""
    import xarray as xr

    out = {}
    for k, v in inputs.items():
        lay = layout.get(k)
        if lay is None or not isinstance(v, (xr.DataArray, xr.Dataset)):
            out[k] = v
            continue
        if isinstance(v, xr.DataArray):
            out[k] = v._replace(variable=lazy_variable(store, k, v.variable, lay["how"], lay.get("chunks"), tag))
        else:
            w = v.copy(deep=False)
            for n in v.data_vars:
                if v[n].variable.dtype.kind in "fiu" and v[n].ndim:
                    w[n] = lazy_variable(store, f"{k}.{n}", v[n].variable, lay["how"], lay.get("chunks"), tag)
            out[k] = w
        if lay.get("coords"):
            for c in list(out[k].coords):
                if c not in out[k].dims and out[k].coords[c].ndim:
                    out[k] = out[k].assign_coords(
                        {c: lazy_variable(store, f"{k}@{c}", v.coords[c].variable, lay["how"], lay.get("chunks"), tag)}
                    )
    return out


def caused_by_fault(e):
    """Is a storage error visible in the chain of this exception?"""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if MARK in str(e):
            return True
        if isinstance(e, BaseExceptionGroup):
            return any(caused_by_fault(x) for x in e.exceptions)
        if e.__cause__ is not None:
            e = e.__cause__
        elif not e.__suppress_context__:
            e = e.__context__
        else:
            e = None
    return False
