"""Catalogue of the public operations of geocat.comp.

An operation draws JSON-able parameters from a `random.Random` and builds its
inputs from them; building is a pure function of the parameters, so that one
parameter record is one exact call in every process.  Nothing here refers to an
internal name of the repository: every call goes through `geocat.comp.<name>`.
"""

import math
import random
import warnings

import numpy as np


class Case:
    """Inputs of one call and the call itself (on whatever inputs are given)."""

    __slots__ = ("inputs", "fn")

    def __init__(self, inputs, fn):
        self.inputs = inputs
        self.fn = fn


class Op:
    def __init__(self, name, family, gen, build, deferred=False, cost=1):
        self.name = name
        self.family = family
        self.gen = gen
        self.build = build
        # deferred: documented (test_dask.py) as staying lazy on chunked input
        self.deferred = deferred
        self.cost = cost


OPS = {}


def op(name, family, **kw):
    def deco(f):
        gen, build = f()
        OPS[name] = Op(name, family, gen, build, **kw)
        return f

    return deco


def _gc():
    import geocat.comp as gc

    return gc


def _xr():
    import xarray as xr

    return xr


# ---------------------------------------------------------------- data helpers
def rs(p, salt=0):
    return np.random.default_rng([p["seed"], salt])


def vals(p, shape, lo, hi, salt=0, dtype=None, nan=None):
    g = rs(p, salt)
    a = g.uniform(lo, hi, size=shape)
    nan = p.get("nan", 0) if nan is None else nan
    dt = np.dtype(dtype or p.get("dtype", "f8"))
    if dt.kind in "iu":
        return np.asarray(np.round(a), dtype=dt)
    a = np.asarray(a, dtype=dt)
    if nan and a.size:
        m = g.uniform(size=shape) < nan
        a = np.where(m, np.array(np.nan, dt), a)
    return np.asarray(a)


DIMS = ["time", "lev", "lat", "lon"]


def gen_shape(r, nmin=1, nmax=3, smin=1, smax=6):
    if nmax == 3 and r.random() < 0.05:
        return [r.randint(1, 3) for _ in range(4)]
    return [r.randint(smin, smax) for _ in range(r.randint(nmin, nmax))]


def coords_for(dims, shape):
    out = {}
    for d, n in zip(dims, shape):
        if d == "lat":
            out[d] = np.linspace(-60, 60, n) if n > 1 else np.array([10.0])
        elif d == "lon":
            out[d] = np.arange(n) * (360.0 / max(n, 1))
        elif d == "lev":
            out[d] = np.linspace(1000, 100, n) if n > 1 else np.array([500.0])
        else:
            out[d] = np.arange(n)
    return out


def wrap(p, a, salt=0, name=None, container=None):
    """Put array `a` in the container the parameters ask for."""
    c = container or p.get("container", "xr")
    if c == "xr":
        xr = _xr()
        dims = DIMS[-a.ndim :] if a.ndim else []
        co = coords_for(dims, a.shape) if p.get("coords", True) else {}
        at = {"units": "u%d" % salt, "note": ["x", salt]} if p.get("attrs", True) else {}
        da = xr.DataArray(a, dims=dims, coords=co, attrs=at, name=name)
        da = extra_coords(p, da)
        if p.get("mix") and salt == 1 + p["mix"] % 3 and da.ndim > 1:
            # an argument without one of the dimensions
            da = da.isel({dims[p["mix"] % da.ndim]: 0}, drop=True)
        return da
    if c == "np":
        return a
    if c == "list":
        return a.tolist()
    if c == "float":
        return float(a.ravel()[0])
    raise ValueError(c)


def extra_coords(p, da):
    """Auxiliary coordinates: scalar, two-dimensional, along one dimension."""
    x = p.get("extra")
    if not x:
        return da
    if x in ("scalar", "all"):
        da = da.assign_coords(height=2.0, realization="r1")
    if x in ("2d", "all") and da.ndim >= 2:
        d = da.dims[-2:]
        n = [da.sizes[k] for k in d]
        da = da.assign_coords(
            area=(d, np.arange(float(n[0] * n[1])).reshape(n), {"units": "m2"}), mask=(d, np.ones(n, bool))
        )
    if x in ("1d", "all") and da.ndim:
        d = da.dims[0]
        da = da.assign_coords(label=(d, ["n%d" % k for k in range(da.sizes[d])]), step=(d, np.arange(da.sizes[d])))
    return da


EXTRA = [None, None, None, "scalar", "2d", "1d", "all"]


def gen_pointwise(r, dtypes=("f8",) * 8 + ("f4",) * 3 + ("i8", "i4"), containers=None):
    return {
        "seed": r.randrange(10**6),
        "shape": gen_shape(r),
        "dtype": r.choice(dtypes),
        "nan": r.choice([0, 0, 0.15]),
        "container": r.choice(containers or ["xr", "xr", "xr", "np", "list", "float"]),
        "coords": r.random() < 0.7,
        "attrs": r.random() < 0.7,
        "extra": r.choice(EXTRA),
        "mix": r.choice([0] * 12 + [1, 2, 3, 4]),
    }


# ---------------------------------------------------------------- meteorology
@op("dewtemp", "meteorology", deferred=True)
def _dewtemp():
    def build(p):
        t = vals(p, p["shape"], 230, 310, 1)
        h = vals(p, p["shape"], 1, 100, 2)
        i = {"t": wrap(p, t, 1, "T"), "rh": wrap(p, h, 2, "RH")}
        return Case(i, lambda x: _gc().dewtemp(x["t"], x["rh"]))

    return gen_pointwise, build


@op("heat_index", "meteorology")
def _heat_index():
    def gen(r):
        p = gen_pointwise(r)
        p["alt"] = r.random() < 0.4
        p["rhmode"] = r.choice(["pct", "pct", "pct", "pct", "frac", "bad"])
        return p

    def build(p):
        t = vals(p, p["shape"], 30, 115, 1)
        h = vals(p, p["shape"], 0, 1 if p["rhmode"] == "frac" else 100, 2)
        if p["rhmode"] == "bad" and h.size:
            h.ravel()[-1] = 101.5
            h = np.asarray(h)
            h.flat[h.size - 1] = 101.5
        i = {"t": wrap(p, t, 1, "T"), "rh": wrap(p, h, 2, "RH")}
        return Case(
            i, lambda x: _gc().heat_index(x["t"], x["rh"], alternate_coeffs=p["alt"])
        )

    return gen, build


def _relhum_like(name):
    def f():
        def build(p):
            s = p["shape"]
            i = {
                "t": wrap(p, vals(p, s, *[(160, 390), (120, 430)][p["seed"] % 2], 1), 1, "T"),
                "w": wrap(p, vals(p, s, 0, 0.03, 2), 2, "Q"),
                "p": wrap(p, vals(p, s, 2000, 105000, 3), 3, "P"),
            }
            return Case(i, lambda x: getattr(_gc(), name)(x["t"], x["w"], x["p"]))

        return gen_pointwise, build

    return f


def _gen_relhum(r):
    # relhum indexes a table with the temperature: NaN is not a valid input
    p = gen_pointwise(r)
    p["nan"] = 0
    return p


OPS["relhum"] = Op(
    "relhum", "meteorology", _gen_relhum, _relhum_like("relhum")()[1], deferred=False
)
op("relhum_ice", "meteorology", deferred=True)(_relhum_like("relhum_ice"))
op("relhum_water", "meteorology", deferred=True)(_relhum_like("relhum_water"))


def _svp_like(name):
    def f():
        def gen(r):
            p = gen_pointwise(r)
            p["tfill"] = r.choice([None, None, -9999.0, 1e20, 0.25])
            return p

        def build(p):
            i = {"t": wrap(p, vals(p, p["shape"], -20, 120, 1), 1, "T")}
            kw = {} if p["tfill"] is None else {"tfill": p["tfill"]}
            return Case(i, lambda x: getattr(_gc(), name)(x["t"], **kw))

        return gen, build

    return f


for _n in (
    "saturation_vapor_pressure",
    "actual_saturation_vapor_pressure",
    "saturation_vapor_pressure_slope",
):
    op(_n, "meteorology", deferred=True)(_svp_like(_n))


@op("psychrometric_constant", "meteorology", deferred=True)
def _psy():
    def build(p):
        i = {"p": wrap(p, vals(p, p["shape"], 40, 110, 1), 1, "P")}
        return Case(i, lambda x: _gc().psychrometric_constant(x["p"]))

    return gen_pointwise, build


@op("max_daylight", "meteorology")
def _max_daylight():
    def gen(r):
        return {
            "seed": r.randrange(10**6),
            "nday": r.randint(1, 6),
            "nlat": r.randint(1, 5),
            "container": r.choice(["xr", "xr", "xr", "np", "list", "float"]),
            "attrs": r.random() < 0.6,
            "latmax": r.choice([50, 50, 66]),
            "day": r.choice(["float", "float", "int"]),
            "latdim": r.choice(["lat", "lat", "y"]),
            "sort": r.random() < 0.7,
        }

    def build(p):
        xr = _xr()
        d = np.sort(rs(p, 1).uniform(1, 365, p["nday"]))
        la = np.sort(rs(p, 2).uniform(-p["latmax"], p["latmax"], p["nlat"]))
        if p["latmax"] == 66:
            la = np.sort(rs(p, 2).uniform(56, 66, p["nlat"]))
        if p["day"] == "int":
            d = np.round(d).astype("i8")
        if not p["sort"]:
            d, la = d[::-1].copy(), la[::-1].copy()
        if p["container"] == "xr":
            at = {"units": "x"} if p["attrs"] else {}
            i = {
                "jday": xr.DataArray(d, dims=["doy"], attrs=at, name="doy"),
                "lat": xr.DataArray(la, dims=[p["latdim"]], attrs=at, name="lat"),
            }
        elif p["container"] == "np":
            i = {"jday": d, "lat": la}
        elif p["container"] == "float":
            i = {"jday": float(d[0]), "lat": float(la[0])}
        else:
            i = {"jday": d.tolist(), "lat": la.tolist()}
        return Case(i, lambda x: _gc().max_daylight(x["jday"], x["lat"]))

    return gen, build


def _delta_pressure_like(name):
    def f():
        def gen(r):
            return {
                "seed": r.randrange(10**6),
                "nlev": r.randint(4, 7),
                "shape": gen_shape(r, 1, 3, 1, 4),
                "desc": r.random() < 0.5,
                "top": r.choice([None, None, 50.0, 4000.0]),
                "bad": r.choice([None] * 8 + ["nan-level", "low-ps", "nan-ps", "unsorted"]),
                "container": r.choice(["xr", "xr", "np", "scalar"]),
                "plev": r.choice(["xr", "np"]),
                "attrs": r.random() < 0.6,
                "dtype": "f8",
            }

        def build(p):
            xr = _xr()
            lev = np.sort(rs(p, 1).uniform(5000, 80000, p["nlev"]))
            if p["desc"]:
                lev = lev[::-1].copy()
            if p["plev"] == "xr" and p["container"] != "scalar":
                at = {"units": "Pa"} if p["attrs"] else {}
                lev = xr.DataArray(lev, dims=["plev"], attrs=at, name="plev")
            ps = vals(p, p["shape"], 60000, 105000, 2, nan=0)
            if p["bad"] == "low-ps":
                ps.flat[0] = 3000.0
            elif p["bad"] == "nan-ps":
                ps.flat[0] = np.nan
            elif p["bad"] == "nan-level":
                lev[-1] = np.nan
            elif p["bad"] == "unsorted":
                lev[0], lev[1] = float(lev[1]), float(lev[0])
            if p["container"] == "scalar":
                ps = float(ps.ravel()[0])
            else:
                ps = wrap(p, ps, 2, "PS", container=p["container"])
                if p["container"] == "xr":
                    ps = ps.rename({"lev": "z"}) if "lev" in ps.dims else ps
            i = {"lev": lev, "ps": ps}
            return Case(
                i,
                lambda x: getattr(_gc(), name)(x["lev"], x["ps"], pressure_top=p["top"]),
            )

        return gen, build

    return f


op("delta_pressure", "meteorology")(_delta_pressure_like("delta_pressure"))
op("dpres_plev", "meteorology")(_delta_pressure_like("dpres_plev"))


PSI_NAMES = {
    "wind": ("northward_wind", "northward_wind"),
    "pressure": ("surface_air_pressure", "surface_air_pressure"),
    "hyam": ("hybrid A coefficient at layer midpoints", None),
    "hybm": ("hybrid B coefficient at layer midpoints", None),
}


def spellings(s):
    """Ways a name is written in files: case of the letters, separators."""
    out = []
    for v in (s, s.lower(), s.upper(), s.capitalize(), s.title(), s.replace(" ", "_"), s.replace("_", " ")):
        if v not in out:
            out.append(v)
    return out


def _psi_like(name):
    def f():
        def gen(r):
            return {
                "seed": r.randrange(10**6),
                "nt": r.randint(1, 2),
                "nlev": r.randint(3, 5),
                "nface": r.randint(4, 8),
                "kind": r.choice(["plev", "plev", "hybrid"]),
                "desc": r.random() < 0.5,
                "meta": r.choice(["names", "cf"]),
                # decoys: further variables that also match a candidate name
                "decoys": r.random() < 0.4,
                # spellings of the standard and long names that also appear
                "spell": r.random() < 0.35,
                "order": r.randrange(10**6),
                "explicit": r.random() < 0.15,
                "lat": r.choice([[-20.0, 0.0, 20.0], [10.0, 30.0], [0.0]]),
            }

        def build(p):
            import uxarray as ux

            from . import uxstub

            xr = _xr()
            nt, nl, nf = p["nt"], p["nlev"], p["nface"]
            g = uxstub.grid()
            v = rs(p, 1).normal(size=(nt, nl, nf))
            ps = 1e5 + 500 * rs(p, 2).normal(size=(nt, nf))
            lev = np.sort(rs(p, 3).uniform(5000, 90000, nl))
            if p["desc"]:
                lev = lev[::-1].copy()
            ld = "plev" if p["kind"] == "plev" else "lev"
            cf = p["meta"] == "cf"
            vn, pn = ("wind", "sp") if cf else ("V", "PS")
            dv = {
                vn: (("time", ld, "n_face"), v, {"standard_name": "northward_wind"} if cf else {}),
                pn: (("time", "n_face"), ps, {"standard_name": "surface_air_pressure"} if cf else {}),
            }
            co = {"time": np.arange(nt)}
            if p["kind"] == "plev":
                co["plev"] = ("plev", lev)
            else:
                co["lev"] = ("lev", np.arange(nl) * 1.0, {"axis": "Z", "positive": "down"})
                s = np.linspace(0.05, 1.0, nl)
                dv["hyam"] = (("lev",), 0.1 * (1 - s), {"long_name": "hybrid A coefficient at layer midpoints"})
                dv["hybm"] = (("lev",), s**2, {"long_name": "hybrid B coefficient at layer midpoints"})
            if p["decoys"] and not cf:
                dv["vs"] = (("time", ld, "n_face"), v * 3 + 1)
                dv["v"] = (("time", ld, "n_face"), v * 5 + 1)
                dv["Ps"] = (("time", "n_face"), ps * 1.01)
                dv["p_surface"] = (("time", "n_face"), ps * 1.02)
                dv["surface_pressure"] = (("time", "n_face"), ps * 1.03)
                if p["kind"] == "plev":
                    dv["pressure_lev"] = (("plev",), lev * 1.5)
            if p["spell"]:
                add = {}
                for b, k in (("wind", 2.0), ("pressure", 1.0), ("hyam", 1.0), ("hybm", 1.0)):
                    rr = random.Random(p["order"] + len(b))
                    base, q = PSI_NAMES[b]
                    for j, nm in enumerate(rr.sample(spellings(base), rr.randint(0, 3))):
                        f = 1.0 + (0.01 if b == "pressure" else 0.3) * (j + 1)
                        if b == "wind":
                            add[nm] = (("time", ld, "n_face"), v * f + j)
                        elif b == "pressure":
                            add[nm] = (("time", "n_face"), ps * f)
                        elif p["kind"] != "plev":
                            add[nm] = (("lev",), dv[b][1] * (1 - 0.02 * (j + 1)))
                    if q and rr.random() < 0.4:  # the same attribute on another variable
                        for j in range(2):
                            sh = (("time", ld, "n_face"), v * (j + 4)) if b == "wind" else (("time", "n_face"), ps * (1 + j / 50))
                            add[f"more_{b}_{j}"] = sh + ({"standard_name": rr.choice(spellings(q)), "long_name": rr.choice(spellings(base))},)
                dv = {**dv, **add}
                ks = list(dv)
                random.Random(p["order"]).shuffle(ks)
                dv = {k: dv[k] for k in ks}
            ds = ux.UxDataset(xr.Dataset(dv, coords=co), uxgrid=g)
            lat = np.array(p["lat"])
            if p["explicit"] and not p["decoys"]:
                kw = {"meridional_wind_varname": vn, "surface_air_pressure_varname": pn}
            else:
                kw = {}

            def fn(x):
                with uxstub.installed():
                    return getattr(_gc(), name)(x["ds"], lat=x["lat"], **kw)

            return Case({"ds": ds, "lat": lat}, fn)

        return gen, build

    return f


op("zonal_meridional_psi", "meteorology", cost=4)(_psi_like("zonal_meridional_psi"))
op("zonal_mpsi", "meteorology", cost=4)(_psi_like("zonal_mpsi"))


# --------------------------------------------------------------- interpolation
def hybrid_coeffs(p, n, lo=0.02, hi=1.0):
    s = np.linspace(lo, hi, n) if n > 1 else np.array([0.5])
    b = s ** (1.5 + (p["seed"] % 3) * 0.25)
    a = 0.15 * s * (1 - s) + 0.01 * (1 - s)
    if p.get("order") == "down":
        return a[::-1].copy(), b[::-1].copy()
    if p.get("order") == "any":
        k = rs(p, 8).permutation(n)
        return a[k], b[k]
    return a, b


@op("pressure_at_hybrid_levels", "interpolation", deferred=True)
def _pahl():
    def gen(r):
        return {
            "seed": r.randrange(10**6),
            "nlev": r.randint(2, 6),
            "shape": gen_shape(r, 2, 2, 1, 5),
            "container": r.choice(["xr", "xr", "np"]),
            "p0": r.choice([100000.0, 1000.0, 1.0]),
            "rename": r.random() < 0.2,
            "order": r.choice(["up", "up", "up", "down", "any"]),
            "extra": r.choice(EXTRA),
            "nd": r.choice([2, 2, 2, 1, 3]),
            "coords_h": r.random() < 0.4,
            "attrs": r.random() < 0.6,
            "dtype": "f8",
        }

    def build(p):
        xr = _xr()
        a, b = hybrid_coeffs(p, p["nlev"])
        sh = {1: p["shape"][:1], 2: p["shape"], 3: [2] + p["shape"]}[p["nd"]]
        ps = wrap(p, vals(p, sh, 60000, 105000, 2), 2, "PS")
        if "lev" in getattr(ps, "dims", ()):
            ps = ps.rename(lev="z")
        if p["container"] == "xr":
            at = {"long_name": "h"} if p["attrs"] else {}
            co = {"lev": 1000.0 * (a + b)} if p["coords_h"] and not p["rename"] else {}
            a = xr.DataArray(a, dims=["lev"], coords=co, attrs=at, name="hyam")
            b = xr.DataArray(b, dims=["ilev" if p["rename"] else "lev"], coords=co, name="hybm")
        i = {"ps": ps, "hya": a, "hyb": b}
        return Case(
            i,
            lambda x: _gc().pressure_at_hybrid_levels(
                x["ps"], x["hya"], x["hyb"], p["p0"]
            ),
        )

    return gen, build


@op("delta_pressure_hybrid", "interpolation", deferred=True)
def _dph():
    gen = OPS["pressure_at_hybrid_levels"].gen

    def build(p):
        xr = _xr()
        a, b = hybrid_coeffs(p, p["nlev"] + 1)
        sh = {1: p["shape"][:1], 2: p["shape"], 3: [2] + p["shape"]}[p["nd"]]
        ps = wrap(p, vals(p, sh, 60000, 105000, 2), 2, "PS")
        if "lev" in getattr(ps, "dims", ()):
            ps = ps.rename(lev="z")
        if p["container"] == "xr":
            at = {"long_name": "h"} if p["attrs"] else {}
            a = xr.DataArray(a, dims=["ilev"], attrs=at, name="hyai")
            b = xr.DataArray(b, dims=["lev2" if p["rename"] else "ilev"], name="hybi")
        i = {"ps": ps, "hya": a, "hyb": b}
        return Case(
            i,
            lambda x: _gc().delta_pressure_hybrid(x["ps"], x["hya"], x["hyb"], p["p0"]),
        )

    return gen, build


@op("interp_hybrid_to_pressure", "interpolation", deferred=True, cost=2)
def _ihp():
    def gen(r):
        ex = r.random() < 0.45
        return {
            "seed": r.randrange(10**6),
            "nt": r.choice([0, 0, 1, 2]),
            "nlev": r.randint(3, 7),
            "nlat": r.randint(1, 4),
            "nlon": r.randint(1, 4),
            "perm": r.random() < 0.25,
            "method": r.choice(["linear", "log"]),
            "levels": r.choice(["default", "custom", "custom"]),
            "nnew": r.randint(1, 5),
            "extrapolate": ex,
            "variable": r.choice(["other", "temperature", "geopotential"]) if ex else None,
            "lev_dim": r.random() < 0.5,
            "attrs": r.random() < 0.6,
            "dtype": r.choice(["f8", "f8", "f4"]),
            "p0": 100000.0,
            "extra": r.choice(EXTRA),
            "levname": r.choice(["lev", "lev", "lev", "hlevel"]),
            "asc": r.random() < 0.3,
            "nan": r.choice([0, 0, 0.05]),
            "drop_coords": r.random() < 0.2,
            # levels stored from the surface up; levels without a coordinate
            "flip": r.random() < 0.25,
            "bare": r.random() < 0.2,
            "hyb": r.choice(["coord", "coord", "bare"]),
            "ps_lo": r.choice([70000, 70000, 45000]),
            "ps_const": r.random() < 0.1,
        }

    def build(p):
        xr = _xr()
        dims = ["lev", "lat", "lon"]
        shape = [p["nlev"], p["nlat"], p["nlon"]]
        if p["nt"]:
            dims, shape = ["time"] + dims, [p["nt"]] + shape
        a, b = hybrid_coeffs(p, p["nlev"])
        co = coords_for(dims, shape)
        levc = (a + b) * 1000.0
        co["lev"] = ("lev", levc, {"axis": "Z", "positive": "down", "units": "hPa"})
        at = {"units": "K", "long_name": "tt"} if p["attrs"] else {}
        data = xr.DataArray(
            vals(p, shape, 200, 300, 1), dims=dims, coords=co, attrs=at, name="T"
        )
        sd = [d for d in dims if d != "lev"]
        ss = [n for d, n in zip(dims, shape) if d != "lev"]
        sco = {d: co[d] for d in sd}
        ps = xr.DataArray(
            vals(p, ss, p["ps_lo"], 105000, 2, dtype="f8", nan=0), dims=sd, coords=sco, name="PS"
        )
        hco = {"lev": levc} if p["hyb"] == "coord" and not p["bare"] else {}
        hyam = xr.DataArray(a, dims=["lev"], coords=hco, name="hyam")
        hybm = xr.DataArray(b, dims=["lev"], coords=hco, name="hybm")
        if p["bare"]:
            data = data.drop_vars("lev")
        if p["flip"]:
            data, hyam, hybm = (v.isel(lev=slice(None, None, -1)) for v in (data, hyam, hybm))
        x = p["extra"]
        if not p["nt"] and p["seed"] % 4:  # a further coordinate along the levels is refused
            x = {"1d": None, "all": "2d"}.get(x, x)
        data = extra_coords(dict(p, extra=x), data)
        if p["drop_coords"]:
            data = data.drop_vars([c for c in ("lat", "lon", "time") if c in data.coords])
            ps = ps.drop_vars([c for c in ("lat", "lon", "time") if c in ps.coords])
        if p["perm"]:
            data = data.transpose(*(dims[1:] + dims[:1]))
        if p["levname"] != "lev":
            data, hyam, hybm = (v.rename(lev=p["levname"]) for v in (data, hyam, hybm))
        if p["nt"] and p["ps_const"]:
            ps = ps.isel(time=0, drop=True)
        i = {"data": data, "ps": ps, "hyam": hyam, "hybm": hybm}
        kw = {"method": p["method"], "p0": p["p0"]}
        if p["levels"] == "custom":
            lv = np.sort(rs(p, 4).uniform(3000, 104000, p["nnew"]))
            lv = lv if p["asc"] else lv[::-1].copy()
            i["new_levels"] = lv
        if p["lev_dim"] or p["bare"]:
            kw["lev_dim"] = p["levname"]
        if p["extrapolate"]:
            kw["extrapolate"] = True
            kw["variable"] = p["variable"]
            if p["variable"] != "other":
                i["t_bot"] = xr.DataArray(vals(p, ss, 250, 310, 5, dtype="f8"), dims=sd, coords=sco)
                i["phi_sfc"] = xr.DataArray(vals(p, ss, 10, 30000, 6, dtype="f8"), dims=sd, coords=sco)

        def fn(x):
            k = dict(kw)
            for n in ("new_levels", "t_bot", "phi_sfc"):
                if n in x:
                    k[n] = x[n]
            return _gc().interp_hybrid_to_pressure(
                x["data"], x["ps"], x["hyam"], x["hybm"], **k
            )

        return Case(i, fn)

    return gen, build


@op("interp_sigma_to_hybrid", "interpolation", cost=3)
def _ish():
    def gen(r):
        n = r.randint(3, 6)
        return {
            "seed": r.randrange(10**6),
            "nlev": n,
            "nhyb": r.randint(2, n),
            "nlat": r.randint(1, 3),
            "nlon": r.randint(1, 3),
            "one": r.random() < 0.2,
            "method": r.choice(["linear", "log"]),
            "dtype": "f8",
            "attrs": r.random() < 0.5,
            "range": r.choice(["inside", "outside"]),
            "extra": r.choice(EXTRA),
            "nt": r.choice([0, 0, 0, 2]),
            "p0": r.choice([None, None, 100000.0, 90000.0]),
        }

    def build(p):
        xr = _xr()
        sig = np.linspace(0.05, 0.99, p["nlev"])
        lo, hi = (0.15, 0.7) if p["range"] == "inside" else (0.001, 1.0)
        h = np.linspace(lo, hi, p["nhyb"])
        at = {"units": "m/s"} if p["attrs"] else {}
        if p["one"]:
            data = xr.DataArray(
                vals(p, [p["nlev"]], -20, 20, 1),
                dims=["lev"],
                coords={"lev": sig},
                attrs=at,
                name="U",
            )
            data = extra_coords(p, data)
            ps = xr.DataArray(vals(p, [], 90000, 104000, 2))
        else:
            td, ts = (["time"], [p["nt"]]) if p["nt"] else ([], [])
            co = coords_for(td + ["lat", "lon"], ts + [p["nlat"], p["nlon"]])
            data = xr.DataArray(
                vals(p, ts + [p["nlev"], p["nlat"], p["nlon"]], -20, 20, 1),
                dims=td + ["lev", "lat", "lon"],
                coords={"lev": sig, **co},
                attrs=at,
                name="U",
            )
            data = extra_coords(p, data)
            ps = xr.DataArray(
                vals(p, ts + [p["nlat"], p["nlon"]], 90000, 104000, 2),
                dims=td + ["lat", "lon"],
                coords=co,
                name="PS",
            )
        kw = {} if p["p0"] is None else {"p0": p["p0"]}
        i = {
            "data": data,
            "sig": xr.DataArray(sig, dims=["lev"]),
            "ps": ps,
            "hyam": xr.DataArray(h * 0.3, dims=["hlev"]),
            "hybm": xr.DataArray(h * 0.7, dims=["hlev"]),
        }
        return Case(
            i,
            lambda x: _gc().interp_sigma_to_hybrid(
                x["data"],
                x["sig"],
                x["ps"],
                x["hyam"],
                x["hybm"],
                lev_dim="lev",
                method=p["method"],
                **kw,
            ),
        )

    return gen, build


@op("interp_multidim", "interpolation")
def _imd():
    def gen(r):
        return {
            "seed": r.randrange(10**6),
            "nlat": r.randint(2, 8),
            "nlon": r.randint(2, 9),
            "nt": r.choice([0, 2, 4]),
            "container": r.choice(["xr", "xr", "np"]),
            "cyclic": r.random() < 0.4,
            "missing": r.choice([None, None, 99.0]),
            "method": r.choice(["linear", "nearest"]),
            "fill": r.choice([None, None, "extrapolate"]),
            "nan": r.choice([0, 0.1]),
            "dtype": r.choice(["f8", "f8", "f4"]),
            "nout": r.randint(1, 5),
            "attrs": r.random() < 0.6,
            "extra": r.choice([None, None, "scalar"]),
            "desc": r.random() < 0.2,
            "missnan": r.random() < 0.1,
            "lists": r.random() < 0.15,
            "west": r.random() < 0.2,
            # the first longitude is not zero: points on both sides of the seam
            "off": r.choice([0, 0, 0.5, 0.9]),
        }

    def build(p):
        xr = _xr()
        nla, nlo = p["nlat"], p["nlon"]
        nt = p["nt"] if (p["container"] == "xr" and not p["cyclic"]) else 0
        shape = ([nt] if nt else []) + [nla, nlo]
        dims = (["time"] if nt else []) + ["lat", "lon"]
        d = vals(p, shape, -10, 10, 1)
        if p["missing"] is not None:
            m = rs(p, 7).uniform(size=shape) < 0.1
            d = np.where(m, np.array(p["missing"], d.dtype), d)
        lat = np.linspace(-40, 40, nla)
        lon = (np.arange(nlo) + p["off"]) * (360.0 / nlo) - (180.0 if p["west"] else 0.0)
        ola = np.sort(rs(p, 2).uniform(-45, 45, p["nout"]))
        olo = np.sort(rs(p, 3).uniform(0, 359, p["nout"] + 1))
        if p["west"]:
            olo = olo - 180.0
        if p["lists"]:
            ola, olo = ola.tolist(), olo.tolist()
        kw = {"cyclic": p["cyclic"], "missing_val": np.nan if p["missnan"] else p["missing"], "method": p["method"]}
        if p["fill"]:
            kw["fill_value"] = p["fill"]
        i = {"lat_out": ola, "lon_out": olo}
        if p["container"] == "xr":
            co = {"lat": lat, "lon": lon}
            if nt:
                co["time"] = np.arange(nt)
            at = {"units": "K"} if p["attrs"] else {}
            i["data"] = extra_coords(p, xr.DataArray(d, dims=dims, coords=co, attrs=at, name="T"))
            if p["desc"]:
                i["data"] = i["data"].isel(lat=slice(None, None, -1))
        else:
            i.update(data=d, lat_in=lat, lon_in=lon)

        def fn(x):
            k = dict(kw)
            if "lat_in" in x:
                k.update(lat_in=x["lat_in"], lon_in=x["lon_in"])
            return _gc().interp_multidim(x["data"], x["lat_out"], x["lon_out"], **k)

        return Case(i, fn)

    return gen, build


# --------------------------------------------------------------- climatologies
SEASONS = ["DJF", "JFM", "FMA", "MAM", "AMJ", "MJJ", "JJA", "JAS", "ASO", "SON", "OND", "NDJ"]
CALS = ["standard", "standard", "noleap", "360_day", "standard_cf"]


def time_axis(cal, start, n, freq):
    xr = _xr()
    if cal == "standard":
        return xr.date_range(start, periods=n, freq=freq)
    if cal == "standard_cf":
        return xr.date_range(start, periods=n, freq=freq, calendar="standard", use_cftime=True)
    return xr.date_range(start, periods=n, freq=freq, calendar=cal, use_cftime=True)


def clim_inputs(p, n, freq, start):
    xr = _xr()
    t = time_axis(p["cal"], start, n, freq)
    dims = ["time", "lat", "lon", "member"][: 1 + p["nspace"]]
    shape = [len(t)] + [p["nlat"], p["nlon"], 2][: p["nspace"]]
    g = rs(p, 1)
    d = g.normal(size=shape) * 5 + 10 * np.sin(np.arange(len(t)) / 7.0).reshape(
        [-1] + [1] * p["nspace"]
    )
    d = d.astype(p["dtype"])
    if p["nan"]:
        # whole time steps or single cells are missing
        if p["seed"] % 2:
            d[g.integers(0, len(t), size=max(1, len(t) // 15))] = np.nan
        else:
            d = np.where(g.uniform(size=shape) < p["nan"] / len(t) ** 0.5, np.nan, d).astype(p["dtype"])
    co = coords_for(dims[1:], shape[1:])
    co["time"] = ("time", t, {"standard_name": "time", "axis": "T"})
    at = {"units": "K", "long_name": "tt"} if p["attrs"] else {}
    da = xr.DataArray(d, dims=dims, coords=co, attrs=at, name="tas")
    da = extra_coords(dict(p, extra=None if p.get("extra") == "1d" else p.get("extra")), da)
    if p.get("perm") and len(dims) > 1:
        da = da.transpose(*(dims[1:] + dims[:1]))
    out = da
    if p["container"] == "ds":
        ds = da.to_dataset()
        ds["pr"] = (da * 2 + 1).assign_attrs(units="mm")
        if p.get("mixed"):
            # variables of other kinds, shapes and without time
            ds["tmean"] = ds["tas"].mean([d for d in ds["tas"].dims if d != "time"])
            ds["count"] = ("time", np.arange(len(t)))
            if p["nspace"]:
                ds["orog"] = (dims[1:], np.arange(float(np.prod(shape[1:]))).reshape(shape[1:]), {"units": "m"})
        ds.attrs["title"] = "toy"
        out = ds
    if p.get("tname", "time") != "time":
        out = out.rename(time=p["tname"])
    return {"dset": out}


def gen_clim_common(r):
    return {
        "seed": r.randrange(10**6),
        "nspace": r.choice([0, 0, 0, 1, 1, 1, 1, 1, 1, 2, 2, 2, 3]),
        "nlat": r.randint(1, 3),
        "nlon": r.randint(1, 3),
        "cal": r.choice(CALS),
        "dtype": r.choice(["f8", "f8", "f4"]),
        "nan": r.choice([0, 0, 0, 0.3]),
        "attrs": r.random() < 0.7,
        "container": r.choice(["xr", "xr", "ds"]),
        "perm": r.random() < 0.2,
        "extra": r.choice(EXTRA),
        "mixed": r.random() < 0.4,
        "tname": r.choice(["time", "time", "time", "t", "date"]),
        "keep_attrs": r.choice(["unset", None, True, False]),
        "time_dim": r.random() < 0.5,
    }


def clim_kw(p, tname="time_dim"):
    kw = {}
    if p["keep_attrs"] != "unset":
        kw["keep_attrs"] = p["keep_attrs"]
    if p["time_dim"]:
        kw[tname] = p.get("tname", "time")
    return kw


@op("month_to_season", "climatologies", deferred=True, cost=2)
def _mts():
    def gen(r):
        p = gen_clim_common(r)
        p["ny"] = r.randint(1, 3)
        p["m0"] = r.choice([1, 1, 4])
        p["season"] = r.choice(SEASONS)
        return p

    def build(p):
        i = clim_inputs(p, 12 * p["ny"], "MS", "2001-%02d-01" % p["m0"])
        kw = clim_kw(p, "time_coord_name")
        return Case(i, lambda x: _gc().month_to_season(x["dset"], p["season"], **kw))

    return gen, build


CLIM_LAYOUT = {
    # freq -> [(n, data freq, start)]
    "hour": [(30, "h", "2003-02-27"), (48, "h", "2004-07-01"), (60, "30min", "2001-12-31"), (70, "20min", "2002-12-31T20:40"), (48, "h", "2003-05-05"),
             (47, "30min", "2004-02-28T19:30"), (75, "20min", "2002-06-30T20:40")],
    "day": [(40, "D", "2003-12-10"), (28, "6h", "2001-03-01"), (20, "12h", "2004-02-25"), (27, "6h", "2001-12-29T18:00"), (40, "D", "2003-02-10"),
            (33, "12h", "2004-06-01T12:00"), (60, "4h", "2002-09-28T08:00"), (45, "D", "2004-02-20")],
    "month": [
        (26, "MS", "2001-01-01"), (70, "D", "2003-01-15"), (36, "MS", "2003-07-01"), (30, "2D", "2004-02-01"),
        (25, "MS", "2001-01-01"), (430, "D", "2000-05-31"), (160, "3D", "2001-05-07"), (190, "5D", "2000-09-15"),
    ],
    "season": [
        (26, "MS", "2001-01-01"), (24, "MS", "2003-12-01"), (130, "D", "2003-03-01"), (40, "MS", "2003-06-01"),
        (430, "D", "2000-01-20"), (160, "3D", "2001-11-20"),
    ],
    "year": [
        (36, "MS", "2003-01-01"), (24, "MS", "2001-01-01"), (500, "D", "2003-11-15"), (30, "MS", "2003-05-01"),
        (190, "5D", "2000-01-12"),
    ],
}
# long series, drawn rarely: several samples a day or hour over more than a year
CLIM_LONG = {
    "hour": [(400, "h", "2002-12-24T05:00")],
    "day": [(770, "12h", "2001-12-20T12:00"), (731, "D", "2001-01-01"), (800, "D", "2001-11-30")],
    "month": [(731, "D", "2001-01-01"), (1460, "12h", "2001-06-11T12:00")],
    "season": [(731, "D", "2001-01-01")],
    "year": [(1461, "D", "2001-01-01")],
}


def clim_layout(p):
    if p["layout"] < 0:
        lay = CLIM_LONG[p["freq"]]
        return lay[(-p["layout"]) % len(lay)]
    lay = CLIM_LAYOUT[p["freq"]]
    return lay[p["layout"] % len(lay)]


def _clim_like(name, freqs, extra=None):
    def f():
        def gen(r):
            p = gen_clim_common(r)
            p["freq"] = r.choice(freqs)
            p["layout"] = r.randrange(8)
            if r.random() < 0.03:
                p["layout"] = -r.randint(1, 6)
                p["nspace"] = 0
            if extra:
                extra(r, p)
            if "-31" in clim_layout(p)[2] and p["cal"] == "360_day":
                p["cal"] = "noleap"
            return p

        def build(p):
            i = clim_inputs(p, *clim_layout(p))
            kw = clim_kw(p)
            if p.get("custom"):
                # the caller's own list
                c = p["custom"]
                i["seasons"] = tuple(c) if p.get("ctuple") and isinstance(c, list) else list(c) if isinstance(c, list) else c

            def fn(x):
                k = dict(kw, custom_seasons=x["seasons"]) if "seasons" in x else kw
                return getattr(_gc(), name)(x["dset"], p["freq"], **k)

            return Case(i, fn)

        return gen, build

    return f


def _custom(r, p):
    p["custom"] = None
    p["ctuple"] = r.random() < 0.15
    u = r.random()
    if p["freq"] == "season":
        if u < 0.4:
            return
        p["custom"] = r.choice(
            [
                r.choice(SEASONS),
                r.sample(SEASONS, 2),
                r.sample(SEASONS, 3),
                r.sample(SEASONS, r.randint(4, 6)),
                [r.choice(SEASONS[:5]) for _ in range(r.randint(2, 5))],
            ]
        )
        if u > 0.96:
            p["custom"] = ["DJF", "XYZ", "JJA", "ABC"]
    elif u < 0.25:
        p["custom"] = r.choice([r.choice(SEASONS), r.sample(SEASONS, 2)])


op("calendar_average", "climatologies", deferred=False, cost=4)(
    _clim_like("calendar_average", ["hour", "day", "month", "season", "year"])
)
op("climatology_average", "climatologies", deferred=False, cost=4)(
    _clim_like("climatology_average", ["hour", "day", "month", "season", "season"], _custom)
)
op("climate_anomaly", "climatologies", deferred=False, cost=5)(
    _clim_like("climate_anomaly", ["day", "month", "season", "year"])
)


# --------------------------------------------------------------- fourier
def _fourier_like(name):
    def f():
        def gen(r):
            return {
                "seed": r.randrange(10**6),
                "n": r.randint(8, 40),
                "k": r.choice([0, 1, 3]),
                "container": r.choice(["xr", "np", "np"]),
                "lo": r.choice([0, 1.0, 2.5, 4.0]),
                "hi": r.choice([5.0, 8.0, 9.9]),
                "kind": r.choice(["low_pass", "high_pass", "band_pass", "band_block"]),
                "attrs": r.random() < 0.5,
                "dtype": r.choice(["f8", "f8", "f4"]),
                "taxis": r.choice([0, 0, 0, 1]),
                "k2": r.choice([0, 0, 0, 2]),
                "two": r.random() < 0.08,
                "fr": r.choice([20.0, 20.0, 12.5]),
            }

        def build(p):
            xr = _xr()
            shape = [p["n"]] + ([p["k"]] if p["k"] else []) + ([p["k2"]] if p["k"] and p["k2"] else [])
            if p["k"] and p["taxis"]:
                shape[0], shape[1] = shape[1], shape[0]
            d = vals(p, shape, -3, 3, 1)
            if p["container"] == "xr":
                at = {"units": "m"} if p["attrs"] else {}
                d = xr.DataArray(
                    d,
                    dims=(["x", "time", "z"] if p["k"] and p["taxis"] else ["time", "x", "z"])[: d.ndim],
                    coords={"time": np.arange(p["n"]) * 0.1},
                    attrs=at,
                    name="h",
                )
            fr = p["fr"]
            lo, hi = p["lo"], p["hi"]
            ax = {"time_axis": 1} if p["k"] and p["taxis"] else {}

            def fn(x):
                gc = _gc()
                s = x["signal"]
                if name == "fourier_filter":
                    if p["two"]:
                        return gc.fourier_filter(s, fr, lo, hi, low_pass=True, high_pass=True, **ax)
                    return gc.fourier_filter(s, fr, lo, hi, **{p["kind"]: True}, **ax)
                if name == "fourier_low_pass":
                    return gc.fourier_low_pass(s, fr, hi, **ax)
                if name == "fourier_high_pass":
                    return gc.fourier_high_pass(s, fr, hi, **ax)
                return getattr(gc, name)(s, fr, lo, hi, **ax)

            return Case({"signal": d}, fn)

        return gen, build

    return f


for _n in (
    "fourier_filter",
    "fourier_low_pass",
    "fourier_high_pass",
    "fourier_band_pass",
    "fourier_band_block",
):
    op(_n, "fourier")(_fourier_like(_n))


# --------------------------------------------------------------- gradient
@op("gradient", "gradient")
def _gradient():
    def gen(r):
        return {
            "seed": r.randrange(10**6),
            "nlat": r.randint(2, 6),
            "nlon": r.randint(2, 6),
            "container": r.choice(["xr", "xr", "np"]),
            "coord": r.choice(["1d", "2d"]),
            "attrs": r.random() < 0.5,
            "dtype": r.choice(["f8", "f8", "f4", "f4", "i8", "i4"]),
            # coordinates given as arguments of their own
            "explicit": r.choice([None, None, "xr", "np"]),
            "region": r.choice([[-50, 50, 10, 120], [-80, 80, -180, 170], [20, 45, 0, 350], [-50, 50, 11, 121]]),
            "nan": r.choice([0, 0, 0.1]),
            "extra": r.choice([None, None, None, "scalar", "2d"]),
            "flip": r.random() < 0.2,
        }

    def build(p):
        xr = _xr()
        d = vals(p, [p["nlat"], p["nlon"]], 0, 10**6 if p["dtype"][0] == "i" else 10, 1)
        a, b, w, e = p["region"]
        lat = np.linspace(a, b, p["nlat"])
        lon = np.linspace(w, e, p["nlon"])
        if p["flip"]:
            lat = lat[::-1].copy()
        if p["coord"] == "2d":
            lo2, la2 = np.meshgrid(lon, lat)
            la2 = la2 + 0.01 * lo2
        at = {"units": "m"} if p["attrs"] else {}
        if p["container"] == "xr":
            if p["coord"] == "1d":
                da = xr.DataArray(d, dims=["lat", "lon"], coords={"lat": lat, "lon": lon}, attrs=at)
            else:
                da = xr.DataArray(
                    d,
                    dims=["x", "y"],
                    coords={"lat": (("x", "y"), la2), "lon": (("x", "y"), lo2)},
                    attrs=at,
                )
            if p["coord"] == "1d":
                da = extra_coords(p, da)
            if p["explicit"] == "np":
                i = {"data": da, "lon": lon if p["coord"] == "1d" else lo2, "lat": lat if p["coord"] == "1d" else la2}
                return Case(i, lambda x: _gc().gradient(x["data"], x["lon"], x["lat"]))
            if p["explicit"]:
                i = {"data": da, "lon": da["lon"].copy(), "lat": da["lat"].copy()}
                if p["coord"] == "2d":
                    i = {"data": da, "lon": da["lon"].drop_vars(["lat", "lon"]), "lat": da["lat"].drop_vars(["lat", "lon"])}
                return Case(i, lambda x: _gc().gradient(x["data"], x["lon"], x["lat"]))
            return Case({"data": da}, lambda x: _gc().gradient(x["data"]))
        i = {"data": d, "lon": lon, "lat": lat}
        if p["coord"] == "2d":
            i.update(lon=lo2, lat=la2)
        return Case(i, lambda x: _gc().gradient(x["data"], x["lon"], x["lat"]))

    return gen, build


# --------------------------------------------------------------- spherical
def sph_grid(p):
    nl, nt = p["nphi"], p["ntheta"]
    g = p["grid"]
    theta = np.linspace(0, 2 * math.pi - 2 * math.pi / nt, nt)
    phi = np.linspace(math.pi / (2 * nl), math.pi - math.pi / (2 * nl), nl)
    if g == "stretched":  # the same ends, other points between them
        u = np.linspace(0, 1, nt)
        theta = theta[-1] * (u + 0.15 * np.sin(math.pi * u) ** 2)
        u = np.linspace(0, 1, nl)
        phi = phi[0] + (phi[-1] - phi[0]) * (u + 0.1 * np.sin(2 * math.pi * u))
    elif g == "shifted":
        theta = theta + math.pi / nt
    elif g == "down":
        phi = phi[::-1].copy()
    th, ph = np.meshgrid(theta, phi)
    if g == "same":  # two points in one place
        ph[-1, -1], th[-1, -1] = ph[0, 0], th[0, 0]
    elif g == "near":
        ph[-1, -1], th[-1, -1] = ph[0, 0], th[0, 0] + 1e-9
    elif g == "poles":
        ph[0], ph[-1] = 0.0, math.pi
    if g == "skewed":  # the sums of the angles stay
        ph[1:-1, ::2] += 0.03
        ph[1:-1, 1::2] -= 0.03
        th[:, 1:-1] += 0.05 * np.sin(np.arange(nl))[:, None]
    return th, ph


def gen_sph(r):
    return {
        "seed": r.randrange(10**6),
        "nphi": r.randint(3, 6),
        "ntheta": r.randint(4, 8),
        "harm": r.randint(0, 3),
        "grid": r.choice(["plain", "plain", "plain", "stretched", "shifted", "down", "skewed"] * 2 + ["same", "near", "poles"]),
        "container": r.choice(["xr", "xr", "np"]),
        "attrs": r.random() < 0.5,
        "extra": r.choice(EXTRA),
        "dtype": "f8",
    }


def _sx(p, a, name=None):
    if p["container"] == "xr":
        at = {"units": "rad"} if p["attrs"] else {}
        return extra_coords(p, _xr().DataArray(a, dims=["lat", "lon"], attrs=at, name=name))
    return a


@op("decomposition", "spherical", deferred=True)
def _decomp():
    def build(p):
        th, ph = sph_grid(p)
        i = {
            "data": _sx(p, vals(p, th.shape, -1, 1, 1), "d"),
            "scale": _sx(p, np.sin(ph), "s"),
            "theta": _sx(p, th),
            "phi": _sx(p, ph),
        }
        return Case(
            i,
            lambda x: _gc().decomposition(
                x["data"], x["scale"], x["theta"], x["phi"], max_harm=p["harm"]
            ),
        )

    return gen_sph, build


@op("recomposition", "spherical", deferred=True)
def _recomp():
    def build(p):
        th, ph = sph_grid(p)
        n = (p["harm"] + 1) * (p["harm"] + 2) // 2
        h = vals(p, [n], -1, 1, 1) + 1j * vals(p, [n], -1, 1, 2)
        if p["container"] == "xr":
            h = _xr().DataArray(h, dims=["har"])
        i = {"data": h, "theta": _sx(p, th), "phi": _sx(p, ph)}
        return Case(
            i,
            lambda x: _gc().recomposition(
                x["data"], x["theta"], x["phi"], max_harm=p["harm"]
            ),
        )

    return gen_sph, build


@op("scale_voronoi", "spherical")
def _scalev():
    def build(p):
        th, ph = sph_grid(p)
        i = {"theta": _sx(p, th), "phi": _sx(p, ph)}
        return Case(i, lambda x: _gc().scale_voronoi(x["theta"], x["phi"]))

    return gen_sph, build


# --------------------------------------------------------------- stats
@op("nmse", "stats", deferred=True, cost=2)
def _nmse():
    def gen(r):
        return {
            "seed": r.randrange(10**6),
            "nt": r.choice([0, 1, 3]),
            # further dimensions: ensemble member, level
            "more": r.choice([[], [], [2], [2, 3]]),
            "last": r.random() < 0.25,
            "nlat": r.randint(3, 5),
            "nlon": r.randint(3, 6),
            "container": r.choice(["xr", "xr", "ds"]),
            "nan": r.choice([0, 0.1]),
            "coord": r.choice(["1d", "1d", "2d"]),
            "attrs": True,
            "extra": r.choice([None, None, "scalar", "1d"]),
            "dtype": r.choice(["f8", "f8", "f4"]),
        }

    def build(p):
        xr = _xr()
        lead = (["time"] if p["nt"] else []) + ["member", "lev"][: len(p["more"])]
        shape = ([p["nt"]] if p["nt"] else []) + p["more"] + [p["nlat"], p["nlon"]]
        lat = np.linspace(-60, 60, p["nlat"])
        lon = np.linspace(-180, 120, p["nlon"])
        la = {"standard_name": "latitude", "units": "degrees_north"}
        lo = {"standard_name": "longitude", "units": "degrees_east"}
        if p["coord"] == "1d":
            dims = lead + ["lat", "lon"]
            co = {"lat": ("lat", lat, la), "lon": ("lon", lon, lo)}
        else:
            dims = lead + ["y", "x"]
            lo2, la2 = np.meshgrid(lon, lat)
            co = {"lat": (("y", "x"), la2, la), "lon": (("y", "x"), lo2, lo)}

        def mk(salt):
            da = xr.DataArray(
                vals(p, shape, -5, 20, salt), dims=dims, coords=co, attrs={"units": "K"}, name="t"
            )
            da = extra_coords(p, da)
            if p["last"] and lead:
                da = da.transpose(*da.dims[1:], da.dims[0])
            if p["container"] == "ds":
                return xr.Dataset({"t": da, "t2": da * 2 - 1}, attrs={"title": "x"})
            return da

        return Case({"o": mk(1), "m": mk(2)}, lambda x: _gc().nmse(x["o"], x["m"]))

    return gen, build


@op("pearson_r", "stats", deferred=True, cost=2)
def _pearson():
    def gen(r):
        return {
            "seed": r.randrange(10**6),
            "shape": [r.randint(3, 5), r.randint(2, 4), r.randint(3, 5)],
            "container": r.choice(["xr", "xr", "np"]),
            "dim": r.choice([None, "lat", "lon", "lev", ["lat", "lon"], ["lev", "lon"], ["lev", "lat", "lon"]]),
            "extra": r.choice(EXTRA),
            "axis": r.choice([None, 0, 1, 2]),
            "weights": r.random() < 0.5,
            "wkind": r.choice(["plain", "plain", "spread", "zeros", "int"]),
            "skipna": r.random() < 0.4,
            "nan": r.choice([0, 0.1]),
            "keep_attrs": r.random() < 0.3,
            "attrs": r.random() < 0.6,
            "dtype": r.choice(["f8", "f8", "f4"]),
        }

    def build(p):
        s = p["shape"]
        a, b = vals(p, s, 0, 1, 1), vals(p, s, 0, 1, 2)
        i = {
            "a": wrap(p, a, 1, "a"),
            "b": wrap(p, b, 2, "b"),
        }
        if p["weights"]:
            w = vals(p, s, 0.1, 1, 3, nan=0, dtype="f8")
            if p["wkind"] == "spread":  # over several orders of magnitude
                w = 10.0 ** (6 * w - 4)
            elif p["wkind"] == "zeros":
                w = np.where(w < 0.25, 0.0, w)
            elif p["wkind"] == "int":
                w = np.round(9 * w).astype("i8")
            if p["container"] == "xr":
                w = wrap(p, w, 3, "w")
                if p["dim"] is not None:
                    keep = p["dim"] if isinstance(p["dim"], list) else [p["dim"]]
                    w = w.isel({d: 0 for d in w.dims if d not in keep}, drop=True)
            i["w"] = w

        def fn(x):
            kw = {"skipna": p["skipna"], "weights": x.get("w")}
            if p["container"] == "xr":
                kw["dim"] = p["dim"]
                kw["keep_attrs"] = p["keep_attrs"]
            else:
                kw["axis"] = p["axis"]
            return _gc().pearson_r(x["a"], x["b"], **kw)

        return Case(i, fn)

    return gen, build


def gen_eof(r):
    return {
        "seed": r.randrange(10**6),
        "nt": r.randint(5, 8),
        "shape": gen_shape(r, 1, 2, 2, 4),
        "k": r.randint(1, 3),
        "scaling": r.randint(0, 2),
        "meta": r.random() < 0.6,
        "container": r.choice(["xr", "xr", "np", "list"]),
        "tdim": r.choice(["first", "first", "last"]),
        "weights": r.random() < 0.3,
        "center": r.random() < 0.8,
        "ddof": r.choice([0, 1]),
        "vfscaled": r.random() < 0.3,
        "attrs": r.random() < 0.8,
        "dtype": "f8",
        "nancell": r.random() < 0.15,
        "xdim": r.choice([0, 0, 0, 1]),
        "extra": r.choice([None, None, None, "scalar"]),
    }


def eof_inputs(p, tdim):
    xr = _xr()
    shape = [p["nt"]] + p["shape"]
    d = vals(p, shape, -5, 5, 1)
    if p["nancell"]:  # a point that is always missing
        d[(slice(None),) + (0,) * (d.ndim - 1)] = np.nan
    if p["container"] == "xr":
        dims = ["time", "y", "x"][: d.ndim]
        co = {"time": np.arange(p["nt"])}
        at = {"units": "K", "long_name": "sst"} if p["attrs"] else {}
        da = extra_coords(p, xr.DataArray(d, dims=dims, coords=co, attrs=at, name="sst"))
        if p["xdim"]:
            da = da.transpose(dims[1], dims[0], *dims[2:])
            return da, 1
        return da, 0
    if tdim == "last":
        d = np.moveaxis(d, 0, -1).copy()
        t = d.ndim - 1
    else:
        t = 0
    return (d.tolist() if p["container"] == "list" else d), t


def _eof_like(name):
    def f():
        def build(p):
            d, t = eof_inputs(p, p["tdim"])
            i = {"data": d}
            kw = dict(
                time_dim=t,
                center=p["center"],
                ddof=p["ddof"],
                meta=p["meta"] and p["container"] == "xr",
            )
            if p["weights"]:
                w = rs(p, 3).uniform(0.5, 1, p["shape"])
                if p["container"] == "xr":
                    w = _xr().DataArray(w, dims=[x for x in d.dims if x != "time"])
                i["w"] = w
            if name == "eofunc_eofs":
                kw.update(neofs=p["k"], eofscaling=p["scaling"], vfscaled=p["vfscaled"])
            else:
                kw.update(npcs=p["k"], pcscaling=p["scaling"])
            return Case(
                i,
                lambda x: getattr(_gc(), name)(
                    x["data"], **({"weights": x["w"]} if "w" in x else {}), **kw
                ),
            )

        return gen_eof, build

    return f


op("eofunc_eofs", "stats", cost=2)(_eof_like("eofunc_eofs"))
op("eofunc_pcs", "stats", cost=2)(_eof_like("eofunc_pcs"))


def _eof_old(name):
    def f():
        def build(p):
            q = dict(p, container="np" if p["container"] == "xr" else p["container"])
            d, t = eof_inputs(q, "last")
            i = {"data": d}
            if name == "eofunc":
                return Case(i, lambda x: _gc().eofunc(x["data"], p["k"]))
            i["evec"] = np.zeros((p["k"], 2))
            return Case(i, lambda x: _gc().eofunc_ts(x["data"], x["evec"]))

        return gen_eof, build

    return f


op("eofunc", "stats", cost=2)(_eof_old("eofunc"))
op("eofunc_ts", "stats", cost=2)(_eof_old("eofunc_ts"))

DEPRECATED = [
    "grid_to_triple", "linint1", "linint2", "linint2pts", "moc_globe_atl", "rcm2points", "rcm2rgrid", "rgrid2rcm",
    "triple_to_grid",
]


@op("deprecated", "deprecated")
def _deprecated():
    """The functions that moved to geocat-f2py: they warn and return None."""

    def gen(r):
        return {"seed": r.randrange(10**6), "which": r.choice(DEPRECATED), "container": "np", "n": r.randint(1, 3)}

    def build(p):
        i = {"a": vals(p, [p["n"]], 0, 1), "k": ["x", 1]}
        return Case(i, lambda x: getattr(_gc(), p["which"])(x["a"], x["k"], opt=1))

    return gen, build


FAMILIES = {}
for _o in OPS.values():
    FAMILIES.setdefault(_o.family, []).append(_o.name)


def fresh(name, params):
    """Build the inputs of one call."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return OPS[name].build(params)


def lazy_args(name, params, inputs):
    """Arguments whose blocks are not read before the result is computed (C12)."""
    if OPS[name].deferred and name not in ("decomposition", "recomposition"):
        return list(inputs)
    if name in ("decomposition", "recomposition", "interp_sigma_to_hybrid"):
        return ["data"]
    if name == "heat_index":
        return ["t"]
    if name == "relhum":
        return ["w", "p"]
    if name == "interp_multidim" and not params["cyclic"] and params["missing"] is None and not params["missnan"]:
        return ["data"]
    if name in ("climatology_average", "climate_anomaly") and params["freq"] in ("hour", "day", "month"):
        return ["dset"]
    return []


LAZY = [n for n, o in OPS.items() if o.deferred] + [
    "heat_index", "relhum", "interp_sigma_to_hybrid", "interp_multidim", "climatology_average", "climate_anomaly",
]
