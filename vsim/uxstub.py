"""Stub of the unstructured-grid engine behind the streamfunction.

uxarray's real zonal mean is a numba kernel (over a minute of compilation in a
cold sandbox) that is not part of this repository; the simulator replaces it by
a fixed linear operator with the same signature, dims and coordinates.
"""

import contextlib

import numpy as np

_GRID = None


def grid():
    global _GRID
    if _GRID is None:
        import uxarray as ux

        _GRID = ux.Grid.from_topology(
            node_lon=np.array([0.0, 10, 10, 0]),
            node_lat=np.array([0.0, 0, 10, 10]),
            face_node_connectivity=np.array([[0, 1, 2, 3]]),
            fill_value=-1,
        )
    return _GRID


def _zonal_mean(self, lat=(-90, 90, 10), **kw):
    import uxarray as ux
    import xarray as xr

    if isinstance(lat, tuple):
        lats = np.arange(lat[0], lat[1] + lat[2], lat[2])
    else:
        lats = np.atleast_1d(np.asarray(lat, float))
    n = self.sizes["n_face"]
    w = np.exp(-(((np.linspace(-90, 90, n)[None] - lats[:, None]) / 40) ** 2))
    w /= w.sum(1, keepdims=True)
    w = xr.DataArray(w, dims=["latitudes", "n_face"], coords={"latitudes": lats})
    d = xr.DataArray(
        self.variable,
        coords={k: v.variable for k, v in self.coords.items() if "n_face" not in v.dims},
    )
    dims = [x if x != "n_face" else "latitudes" for x in self.dims]
    return ux.UxDataArray(
        (d * w).sum("n_face", skipna=False).transpose(*dims), uxgrid=self.uxgrid
    )


_installed = False


def install():
    """Install for the life of this (simulation) process."""
    global _installed
    if not _installed:
        import uxarray as ux

        ux.UxDataArray.zonal_mean = _zonal_mean
        _installed = True


@contextlib.contextmanager
def installed():
    install()
    yield
