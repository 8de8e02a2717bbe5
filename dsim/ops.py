"""Catalogue of the package's public routines as simulated operations.

An Op knows which inputs it needs, how to draw its options, how to call the
real routine, and the absolute tolerance owed to rounding.  The inputs handed
to `call` are datasets that may live in memory or in simulated storage.
"""

import contextlib
import functools
import io
import warnings

import numpy as np
import pandas as pd
import xarray as xr

import momlevel as ml
from momlevel import derived, eos, reference, spice, tidegauge, trend, util
from momlevel import test_data as td
from momlevel.test_data import time as td_time

OPS = {}
ALTERED = []  # arguments found altered by a call (other than the run's own inputs)


def _data(v):
    d = v._data
    if isinstance(d, np.ndarray):
        return d.tobytes() if d.dtype.kind != "O" else repr(d.tolist())
    if type(d).__name__ == "PandasIndexingAdapter":
        return repr(v.values.tolist())
    return str(getattr(d, "name", id(d)))  # deferred or lazily read: not evaluated


def look(obj):
    """What a caller can see of an argument, without evaluating deferred data."""
    if isinstance(obj, xr.Dataset):
        return (list(obj.variables), repr(obj.attrs), repr(obj.encoding), sorted(obj.coords), [_look_var(v) for v in obj.variables.values()])
    if isinstance(obj, xr.DataArray):
        return (obj.name, list(obj.coords), _look_var(obj.variable), [_look_var(v.variable) for v in obj.coords.values()])
    if isinstance(obj, pd.DataFrame):
        return (obj.to_csv(), [str(t) for t in obj.dtypes], list(obj.index), list(obj.columns))
    if isinstance(obj, np.ndarray):
        return (obj.shape, str(obj.dtype), obj.tobytes() if obj.dtype.kind != "O" else repr(obj.tolist()))
    if isinstance(obj, (dict, list, tuple, set)):
        return repr(obj)
    return None


def _look_var(v):
    return (v.dims, str(v.dtype), repr(v.attrs), repr(v.encoding), _data(v))


class Guarded:
    """A module of the package whose callers look at their arguments before and after."""

    def __init__(self, mod):
        self._mod = mod

    def __getattr__(self, name):
        f = getattr(self._mod, name)
        if isinstance(f, type(np)):
            return Guarded(f)
        if not callable(f):
            return f

        @functools.wraps(f)
        def call(*args, **kw):
            named = [(f"{i + 1}", a) for i, a in enumerate(args)] + list(kw.items())
            before = [look(a) for _, a in named]
            try:
                return f(*args, **kw)
            finally:
                for (k, a), b in zip(named, before):
                    if look(a) != b:
                        ALTERED.append(f"{name}: argument {k}")

        return call


ml, derived, eos, reference, spice, tidegauge, trend, util, td, td_time = map(
    Guarded, (ml, derived, eos, reference, spice, tidegauge, trend, util, td, td_time)
)


SHARED = None  # when several threads run: the arrays taken out of a dataset, one object for all of them


def da(ds, name):
    """An array of a dataset, as the caller's own object."""
    if SHARED is None:
        return ds[name]
    return SHARED.setdefault((id(ds), name), (ds, ds[name]))[1]


class Op:
    def __init__(self, name, group, kinds, call, params=None, force=None, atol=0.0, zmin=1, lazy=True, weight=1.0, cost=1):
        self.name, self.group, self.kinds = name, group, kinds
        self._call, self._params, self._force = call, params, force
        self.atol, self.zmin, self.lazy, self.weight, self.cost = atol, zmin, lazy, weight, cost

    def params(self, r):
        return self._params(r) if self._params else {}

    def force(self, p, r):
        """Spec fields the drawn options require, per input kind."""
        return self._force(p, r) if self._force else {}

    def call(self, inputs, p):
        return self._call(inputs, p)

    def tol(self, specs):
        a = self.atol(specs) if callable(self.atol) else self.atol
        return (1.0e-9, a)


def op(name, group, kinds, **kw):
    def deco(f):
        OPS[name] = Op(name, group, kinds, f, **kw)
        return f

    return deco


def by_group(*groups):
    return [o for o in OPS.values() if o.group in groups]


# -------------------------------------------------------------------- steric


def _steric_params(r):
    p = {
        "variant": r.choice(["steric", "thermosteric", "halosteric"]),
        "domain": r.choice(["local", "local", "global"]),
        "eos": r.choice(["Wright", "Wright", "linear"]),
        "rhozero": r.choice([1035.0, 1035.0, 1025.0]),
        "patm": r.choice([101325.0, 101325.0, 0.0, "field"]),
        "annual": r.random() < 0.3,
        "ref": r.choice([None, None, None, "index", "saved"]),
        "ref_index": r.choice([0, -1]),
        "names": r.choice([None, None, None, "other"]),
        "varmap": r.random() < 0.2,
        "strict": r.random() < 0.8,
        "dtype": r.choice(["float32", "float32", "float64"]),
        "wrapper": r.random() < 0.5,
        "verbose": r.random() < 0.15,
    }
    if p["names"]:
        p["annual"] = False
    return p


def _steric_force(p, r):
    f = {"nt": r.choice([12, 12, 24, 36]), "taxis": "month"} if p["annual"] else {}
    return {"ocean": f}


def rename_ocean(ds, p):
    if p["names"]:
        ds = ds.rename({"time": "t", "z_l": "lev", "z_i": "lev_i"})
    if p["varmap"]:
        ds = ds.rename({"thetao": "temp", "so": "salt"})
    return ds


COORD_NAMES = {"t": "t", "z": "lev", "zbounds": "lev_i"}


def _steric_atol(specs):
    return 1.0e-8  # metres (and kg m-3): rounding of sums over ~1e3 m columns


@op("steric", "steric", ["ocean"], params=_steric_params, force=_steric_force, atol=_steric_atol)
def _steric(I, p):
    ds = I["ocean"]
    cn = dict(COORD_NAMES) if p["names"] else None
    kw = dict(
        rhozero=p["rhozero"],
        equation_of_state=p["eos"],
        domain=p["domain"],
        dtype=p["dtype"],
        strict=p["strict"],
        annual=p["annual"],
        verbose=p["verbose"],
        coord_names=cn,
        patm=ds["pso"].isel(time=0, drop=True) if p["patm"] == "field" else p["patm"],
    )
    full = rename_ocean(ds, {**p, "varmap": False})
    if p["ref"]:
        kw["reference"] = reference.setup_reference_state(
            full, patm=kw["patm"], eos=p["eos"], coord_names=cn, time_index=p["ref_index"]
        )
        if p["ref"] == "saved":
            kw["reference"] = kw["reference"].compute()
    if p["varmap"]:
        kw["varname_map"] = {"temp": "thetao", "salt": "so"}
    src = rename_ocean(ds, p)
    with quiet():
        if p["wrapper"] and p["variant"] != "steric":
            return getattr(ml, p["variant"])(src, **kw)
        return ml.steric(src, variant=p["variant"], **kw)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def _ref_params(r):
    return {
        "patm": r.choice([101325.0, 0.0, "field"]),
        "eos": r.choice(["Wright", "linear"]),
        "names": r.choice([None, None, "other"]),
        "index": r.choice([0, 0, -1]),
    }


@op("reference_state", "derived", ["ocean"], params=_ref_params, atol=0.0)
def _refstate(I, p):
    ds = I["ocean"]
    patm = ds["pso"].isel(time=0, drop=True) if p["patm"] == "field" else p["patm"]
    cn = dict(COORD_NAMES) if p["names"] else None
    full = rename_ocean(ds, {**p, "varmap": False})
    return reference.setup_reference_state(full, patm=patm, eos=p["eos"], coord_names=cn, time_index=p["index"])


# ------------------------------------------------------------------- derived


def _pres(ds, how):
    if how == "scalar":
        return 2.0e6
    if how == "field":
        return ds["z_l"] * 1.0e4 + ds["pso"]
    return ds["z_l"] * 1.0e4


def _ts(ds, sl):
    t, s = da(ds, "thetao"), da(ds, "so")
    if sl == "t0":
        t, s = t.isel(time=0), s.isel(time=0)
    elif sl == "last":
        t, s = t.isel(time=-1, drop=True), s.isel(time=-1, drop=True)
    elif sl == "surface":
        t, s = t.isel(z_l=0), s.isel(z_l=0)
    return t, s


def _eos_params(r):
    return {
        "eos": r.choice(["Wright", "Wright", "linear"]),
        "pres": r.choice(["z", "z", "field", "scalar"]),
        "slice": r.choice([None, None, "t0", "last", "surface"]),
    }


def _eosop(fn):
    def f(I, p):
        ds = I["ocean"]
        t, s = _ts(ds, p["slice"])
        pres = _pres(ds, p["pres"])
        if p["slice"] == "surface" and p["pres"] != "scalar":
            pres = pres.isel(z_l=0) if "z_l" in pres.dims else pres
        if p["slice"] in ("t0", "last") and p["pres"] == "field":
            pres = pres.isel(time=0, drop=p["slice"] == "last")
        return fn(t, s, pres, eos=p["eos"])

    return f


op("rho", "derived", ["ocean"], params=_eos_params)(_eosop(lambda *a, **k: derived.calc_rho(*a, **k)))
op("alpha", "derived", ["ocean"], params=_eos_params)(_eosop(lambda *a, **k: derived.calc_alpha(*a, **k)))
op("beta", "derived", ["ocean"], params=_eos_params)(_eosop(lambda *a, **k: derived.calc_beta(*a, **k)))


def _patm(ds, p):
    """Surface pressure: a number, the field at the first time, or the field at every time."""
    if p["patm"] == "field":
        return ds["pso"].isel(time=0, drop=True)
    if p["patm"] == "series":
        i = {"t0": 0, "last": -1}.get(p["slice"])
        return ds["pso"] if i is None else ds["pso"].isel(time=i, drop=p["slice"] == "last")
    return p["patm"]


@op("pdens", "derived", ["ocean"], params=lambda r: {"level": r.choice([0.0, 200.0, 2000.0]), "eos": r.choice(["Wright", "linear"]), "patm": r.choice([101325, "field", "series"]), "slice": r.choice([None, "t0"])})
def _pdens(I, p):
    t, s = _ts(I["ocean"], p["slice"])
    patm = _patm(I["ocean"], p)
    return derived.calc_pdens(t, s, level=p["level"], patm=patm, eos=p["eos"])


@op("n2", "derived", ["ocean"], zmin=3, params=lambda r: {"eos": r.choice(["Wright", "linear"]), "gravity": r.choice([-9.8, -9.81]), "adjust": r.random() < 0.4, "slice": r.choice([None, "t0", "last"]), "patm": r.choice([101325.0, "field", "series"]), "zc": r.choice(["z_l", "z_l", "lev"])}, force=lambda p, r: {"ocean": {"nz": r.choice([3, 3, 6, 6, 7, 7, 9, 9, 18])}})
def _n2(I, p):
    t, s = _ts(I["ocean"], p["slice"])
    patm = _patm(I["ocean"], p)
    z = "z_l" if p["adjust"] else p["zc"]  # the adjustment insists on z_l
    if z != "z_l":
        t, s = t.rename(z_l=z), s.rename(z_l=z)
    return derived.calc_n2(t, s, eos=p["eos"], gravity=p["gravity"], patm=patm, zcoord=z, adjust_negative=p["adjust"])


@op("adjust_n2", "derived", ["uv"], params=lambda r: {"slice": r.choice([None, "t0"]), "zc": r.choice(["z_l", "lev"])})
def _adjust(I, p):
    n2 = da(I["uv"], "n2")
    n2 = n2.isel(time=0) if p["slice"] else n2
    return derived.adjust_negative_n2(n2.rename(z_l=p["zc"]) if p["zc"] != "z_l" else n2, zcoord=p["zc"])


@op("stability_angle", "derived", ["ocean"], zmin=3, params=lambda r: {"eos": r.choice(["Wright", "linear"]), "pres": r.choice(["z", "field"]), "slice": r.choice([None, "t0"]), "zc": r.choice(["z_l", "z_l", "lev"])}, force=lambda p, r: {"ocean": {"nz": r.choice([3, 3, 6, 6, 7, 7, 18])}}, atol=1e-7)
def _tu(I, p):
    ds = I["ocean"]
    t, s = _ts(ds, p["slice"])
    pres = _pres(ds, p["pres"])
    if p["slice"] and p["pres"] == "field":
        pres = pres.isel(time=0)
    if p["zc"] != "z_l":
        t, s, pres = t.rename(z_l=p["zc"]), s.rename(z_l=p["zc"]), pres.rename(z_l=p["zc"])
    return derived.calc_stability_angle(t, s, pres, eos=p["eos"], zcoord=p["zc"])


@op("wave_speed", "derived", ["ocean"], params=lambda r: {"src": r.choice(["n2", "n2", "raw"]), "rossby": r.random() < 0.5, "zc": r.choice(["z_l", "z_l", "lev"])}, zmin=3, force=lambda p, r: {"ocean": {"nz": r.choice([3, 3, 6, 6, 7, 7, 18])}})
def _wave(I, p):
    ds = I["ocean"]
    dz = derived.calc_dz(ds["z_l"], ds["z_i"], ds["deptho"])
    if p["src"] == "n2":
        n2 = derived.calc_n2(ds["thetao"].isel(time=0), ds["so"].isel(time=0))
    else:
        n2 = (ds["thetao"].isel(time=0) - 15.0) * 1.0e-6
    if p["zc"] != "z_l":
        n2, dz = n2.rename(z_l=p["zc"]), dz.rename(z_l=p["zc"])
    c = derived.calc_wave_speed(n2, dz, zcoord=p["zc"])
    if p["rossby"]:
        return derived.calc_rossby_rd(c, derived.calc_coriolis(ds["geolat"]))
    return c


@op("dz", "derived", ["ocean"], params=lambda r: {"top": r.choice([0.0, 0.0, 20.0]), "bottom": r.choice([None, 60.0, 150.0]), "fraction": r.random() < 0.4, "edges": r.random() < 0.4}, force=lambda p, r: {"ocean": {"edges": True}} if p["edges"] else {})
def _dz(I, p):
    ds = I["ocean"]
    return derived.calc_dz(ds["z_l"], ds["z_edges"] if p.get("edges") else ds["z_i"], da(ds, "deptho"), top=p["top"], bottom=p["bottom"], fraction=p["fraction"])


@op("masso", "derived", ["ocean"], params=lambda r: {"slice": r.choice([None, "t0"]), "tname": r.choice(["time", "time", "t"]), "rhoga": r.random() < 0.5})
def _masso(I, p):
    ds = I["ocean"]
    rho = derived.calc_rho(ds["thetao"], ds["so"], ds["z_l"] * 1.0e4)
    vol = ds["volcello"]
    if p["slice"]:
        rho, vol = rho.isel(time=0), vol.isel(time=0)
    elif p["tname"] == "t":
        rho, vol = rho.rename(time="t"), vol.rename(time="t")
    m = derived.calc_masso(rho, vol, tcoord=p["tname"])
    if p["rhoga"]:
        return derived.calc_rhoga(m, derived.calc_volo(ds["volcello"].isel(time=-1)))
    return m


@op("volo", "derived", ["ocean"])
def _volo(I, p):
    return derived.calc_volo(I["ocean"]["volcello"].isel(time=0))


def _uvmap(ds, p):
    kw = {"symmetric": True} if p.get("sym") else {}
    if not p.get("names"):
        return ds, kw
    ds = ds.rename({"uo": "u", "vo": "v", "xh": "xc", "yh": "yc", "xq": "xf", "yq": "yf"})
    return ds, {
        **kw,
        "varname_map": {"u": "u", "v": "v", "dx": "dxCu", "dy": "dyCv", "area": "areacello_bu"},
        "coord_dict": {"xcenter": "xc", "ycenter": "yc", "xcorner": "xf", "ycorner": "yf"},
    }


def _uv_force(p, r):
    return {"uv": {"sym": bool(p.get("sym"))}}


@op("rel_vort", "derived", ["uv"], params=lambda r: {"names": r.random() < 0.3, "sym": r.random() < 0.25}, force=_uv_force)
def _rv(I, p):
    ds, kw = _uvmap(I["uv"], p)
    return derived.calc_rel_vort(ds, **kw)


def _pv_params(r):
    p = {"names": r.random() < 0.3, "units": r.choice(["m", "cm"]), "interp": r.random() < 0.8, "gravity": r.choice([9.8, 9.81]), "sym": False}
    p["sym"] = p["interp"] and r.random() < 0.25
    return p


@op("pv", "derived", ["uv"], params=_pv_params, force=_uv_force)
def _pv(I, p):
    ds, kw = _uvmap(I["uv"], p)
    zeta = derived.calc_rel_vort(ds, **kw)
    kw.pop("varname_map", None)
    n2 = ds["n2"]
    if not p["interp"]:
        zeta = zeta.rename(dict(zip(zeta.dims[-2:], n2.dims[-2:]))).assign_coords({d: n2[d] for d in n2.dims[-2:]})
        cor = ds["Coriolis"]
        cor = cor.rename(dict(zip(cor.dims, n2.dims[-2:]))).assign_coords({d: n2[d] for d in n2.dims[-2:]})
        return derived.calc_pv(zeta, cor, n2, gravity=p["gravity"], units=p["units"], interp_n2=False)
    return derived.calc_pv(zeta, ds["Coriolis"], n2, gravity=p["gravity"], units=p["units"], **kw)


@op("coriolis", "derived", ["ocean"])
def _cor(I, p):
    return derived.calc_coriolis(da(I["ocean"], "geolat"))


@op("spice", "derived", ["ocean"], params=lambda r: {"slice": r.choice([None, "t0", "surface"])}, lazy=False)
def _spice(I, p):
    t, s = _ts(I["ocean"], p["slice"])
    return derived.calc_spice(t, s)


@op("inverse_barometer", "derived", ["ocean"], params=lambda r: {"eos": r.choice(["Wright", "linear"]), "gravity": r.choice([9.8, 9.81])})
def _ib(I, p):
    t, s = _ts(I["ocean"], "surface")
    return ml.inverse_barometer(t, s, da(I["ocean"], "pso"), gravity=p["gravity"], equation_of_state=p["eos"])


# ------------------------------------------------------------------ averages


def _what(r):
    return r.choice(["ds", "ds", "var_a", "var_b", "zeta_1"])


def _pick(ds, what, tname="time"):
    if tname != "time":
        ds = ds.rename(time=tname)
    if what == "ds":
        return ds
    if what == "num":
        return ds[["var_a", "var_b", "zeta_1"]]
    return da(ds, what)


def _gap_series(specs):
    return 1.0e-9 * 200.0


@op("annual_average", "average", ["series"], params=lambda r: {"what": _what(r), "tname": r.choice(["time", "time", "time", "t"])}, atol=1e-9)
def _ann(I, p):
    return util.annual_average(_pick(I["series"], p["what"], p["tname"]), tcoord=p["tname"])


@op("monthly_average", "average", ["daily"], params=lambda r: {"what": _what(r), "tname": r.choice(["time", "time", "time", "t"])}, atol=1e-9, cost=2)
def _mon(I, p):
    return util.monthly_average(_pick(I["daily"], p["what"], p["tname"]), tcoord=p["tname"])


@op("annual_cycle", "average", ["series"], params=lambda r: {"what": _what(r), "func": r.choice(["mean", "std", "min", "max"]), "year": r.choice([None, None, 1, 2000]), "tname": r.choice(["time", "time", "time", "t"])}, atol=1e-7)
def _cyc(I, p):
    return util.annual_cycle(_pick(I["series"], p["what"], p["tname"]), tcoord=p["tname"], func=p["func"], time_axis_year=p["year"])


# -------------------------------------------------------------------- trends


def _tvar(r):
    return r.choice(["var_a", "var_a", "var_b", "zeta_1"])


def _np_time(r):
    return {"np_time": r.random() < 0.15}


def _npf(kind):
    return lambda p, r: {kind: _np_time(r)}


UNITS = [None, "ns", "s", "min", "hr", "day", "mon", "yr"]


@op("linear_trend", "trend", ["series"], params=lambda r: {"what": _tvar(r), "units": r.choice(UNITS), "dim": r.choice(["time", "time", "time", "lat"])}, force=lambda p, r: {"series": {**_np_time(r), **({"ny": r.choice([2, 3, 5])} if p["dim"] == "lat" else {})}})
def _trend(I, p):
    a = da(I["series"], p["what"])
    d = p["dim"] if p["dim"] in a.dims else "time"
    return trend.calc_linear_trend(a, dim=d, time_units=p["units"] if d == "time" else None)


@op("detrend", "trend", ["series"], params=lambda r: {"what": r.choice(["num", "var_a", "var_b", "zeta_1"]), "mode": r.choice(["remove", "correct"]), "via": r.choice(["trend", "trend", "util"]), "dim": r.choice(["time", "time", "time", "lat"])}, force=lambda p, r: {"series": {**_np_time(r), **({"ny": r.choice([2, 3, 5])} if p["dim"] == "lat" else {})}}, atol=1e-5)
def _detrend(I, p):
    f = trend.linear_detrend if p["via"] == "trend" else util.linear_detrend
    x = _pick(I["series"], p["what"])
    d = p["dim"] if p["what"] in ("var_a", "var_b") else "time"
    return f(x, dim=d, mode=p["mode"]) if d != "time" else f(x, mode=p["mode"])


@op("detrend_static", "trend", ["series"], force=_npf("series"), params=lambda r: {"mode": r.choice(["remove", "correct"]), "dt": r.random() < 0.4}, atol=1e-5)
def _detrend_static(I, p):
    ds = I["series"][["var_a", "zeta_1"]].copy()
    ds["fixed"] = I["series"]["var_b"].isel(time=0, drop=True)
    if p["dt"]:  # a variable the routine warns about
        ds["average_DT"] = I["series"]["zeta_1"] * 0.0 + 30.0
    return trend.linear_detrend(ds, mode=p["mode"])


@op("fitted_line", "trend", ["series"], force=_npf("series"), params=lambda r: {"what": _tvar(r), "units": r.choice(UNITS), "zero": r.random() < 0.5}, atol=1e-5)
def _line(I, p):
    a = da(I["series"], p["what"])
    t = trend.calc_linear_trend(a, time_units=p["units"])
    return trend.broadcast_trend(t[f"{p['what']}_slope"], a["time"], subtract_time_zero=p["zero"])


# ------------------------------------------------------------------ seasonal


@op("deseason", "seasonal", ["series"], params=lambda r: {"what": _tvar(r), "fmt": r.choice(["residuals", "model", "coeff"])}, atol=1e-7)
def _des(I, p):
    return trend.deseason(da(I["series"], p["what"]), output_format=p["fmt"])


@op("deseason_daily", "seasonal", ["daily"], params=lambda r: {"what": _tvar(r), "fmt": r.choice(["residuals", "model", "coeff"])}, atol=1e-7, weight=0.6, cost=2)
def _desd(I, p):
    return trend.deseason(da(I["daily"], p["what"]), output_format=p["fmt"])


@op("seasonal_model", "seasonal", ["series"], force=_npf("series"), params=lambda r: {"what": _tvar(r), "both": r.random() < 0.5}, atol=1e-7)
def _sm(I, p):
    return trend.seasonal_model(da(I["series"], p["what"]), return_model=p["both"])


@op("seasonal_model_daily", "seasonal", ["daily"], force=_npf("daily"), params=lambda r: {"what": _tvar(r), "both": r.random() < 0.5}, atol=1e-7, weight=0.5, cost=2)
def _smd(I, p):
    return trend.seasonal_model(da(I["daily"], p["what"]), return_model=p["both"])


# --------------------------------------------------------------- tide gauges


def _tg_params(r):
    return {
        "csv": r.choice(["file", "file", "file", "us", "global"]),
        "coords": r.choice(["arrays", "arrays", "names", "nominal", "renamed"]),
        "mask": r.choice([None, "wet", "wet", "wetnan"]),
        "threshold": r.choice([None, None, 2000.0, 6000.0]),
        "warn": r.random() < 0.15,
        "slice": r.choice([None, None, "t0"]),
    }


@op("tidegauge", "gauge", ["gauge", "csv"], params=_tg_params, cost=2)
def _tg(I, p):
    ds = I["gauge"]
    arr = da(ds, "zos")
    if p["slice"]:
        arr = arr.isel(time=0)
    if p["coords"] == "names":
        arr = arr.assign_coords(geolon=ds["geolon"], geolat=ds["geolat"])
        kw = {}
    elif p["coords"] == "renamed":
        kw = dict(xcoord=ds["geolon"].rename("lon_h"), ycoord=ds["geolat"].rename("lat_h"))
    elif p["coords"] == "nominal":
        kw = dict(xcoord="xh", ycoord="yh")
    else:
        kw = dict(xcoord=da(ds, "geolon"), ycoord=da(ds, "geolat"))
    if p["mask"]:
        kw["mask"] = da(ds, p["mask"])
    csv = I["csv"] if p["csv"] == "file" else p["csv"]
    return ml.extract_tidegauge(
        arr, csv=csv, threshold=p["threshold"], disable_warning=not (p["warn"] and p["threshold"]), **kw
    )


# ----------------------------------------------------------------- utilities


@op("geolocate", "misc", ["gauge", "csv"], params=lambda r: {"threshold": r.choice([None, 3000.0]), "apply": r.random() < 0.7, "rad": r.choice([6.378e3, 6.371e3]), "names": r.random() < 0.3})
def _geo(I, p):
    import pandas as pd

    ds = I["gauge"]
    dm = pd.concat([ds["geolon"].to_dataframe(), ds["geolat"].to_dataframe(), ds["wet"].rename("mask").to_dataframe()], axis=1)
    dl = pd.read_csv(I["csv"]).rename(columns={"PSMSL_site": "name"})
    kw = {}
    if p["names"]:
        dm, dl = dm.rename(columns={"geolon": "x", "geolat": "y"}), dl.rename(columns={"lat": "north", "lon": "east"})
        kw = dict(model_coords=("y", "x"), loc_coords=("north", "east"))
    return util.geolocate_points(dm, dl, threshold=p["threshold"], apply_mask=p["apply"], rad_earth=p["rad"], **kw)


@op("validate_gauge", "misc", ["gauge"], params=lambda r: {"x": r.choice(["array", "array", "name", "nope"]), "y": r.choice(["array", "name"]), "mask": r.choice([None, "wet", "cut", "text"]), "arr": r.choice(["array", "array", "dataset"])})
def _vg(I, p):
    ds = I["gauge"]
    arr = ds["zos"] if p["arr"] == "array" else ds
    x = {"array": ds["geolon"], "name": "xh", "nope": "missing"}[p["x"]]
    y = {"array": ds["geolat"], "name": "yh"}[p["y"]]
    mask = {None: None, "wet": ds["wet"], "cut": ds["wet"].isel(xh=slice(1, None)), "text": "wet"}[p["mask"]]
    return util.validate_tidegauge_data(arr, x, y, mask)


@op("alphabetize", "misc", ["series"])
def _alpha(I, p):
    return util.alphabetize_dataset(I["series"])


@op("default_coords", "misc", [], params=lambda r: {"cn": r.choice([None, {}, {"t": "t"}, {"z": "lev", "zbounds": "b"}])})
def _dc(I, p):
    cn = None if p["cn"] is None else dict(p["cn"])
    return util.default_coords(cn) if cn is not None else util.default_coords()


@op("eos_lookup", "misc", [], params=lambda r: {"eos": r.choice(["Wright", "linear", "LINEAR", "nope"]), "fn": r.choice(["density", "alpha", "beta", "drho_dtemp", "drho_dsal"])})
def _el(I, p):
    return util.eos_func_from_str(p["eos"], func_name=p["fn"])


@op("eos_raw", "misc", [], params=lambda r: {"eos": r.choice(["wright", "linear"]), "fn": r.choice(["density", "alpha", "beta", "drho_dtemp", "drho_dsal"]), "seed": r.randrange(1000), "ref": r.choice([None, None, 1000.0])})
def _er(I, p):
    g = np.random.default_rng(p["seed"])
    kw = {"rho_ref": p["ref"]} if p["ref"] and p["eos"] == "linear" and p["fn"] == "density" else {}
    return getattr(getattr(eos, p["eos"]), p["fn"])(g.normal(10, 3, 6), g.normal(35, 1, 6), g.uniform(1e5, 1e7, 6), **kw)


@op("spice_raw", "misc", [], params=lambda r: {"seed": r.randrange(1000), "scalar": r.random() < 0.3})
def _sr(I, p):
    if p["scalar"]:
        return spice.flament.spice(float(p["seed"] % 30), 35)
    g = np.random.default_rng(p["seed"])
    return spice.flament.spice(g.normal(10, 3, (2, 3)), g.normal(35, 1, (2, 3)))


@op("season_raw", "misc", [], params=lambda r: {"seed": r.randrange(1000), "n": r.choice([24, 36, 366]), "leap": r.random() < 0.5})
def _ssr(I, p):
    g = np.random.default_rng(p["seed"])
    d = np.where(g.uniform(size=p["n"]) < 0.5, 365, 366) if p["leap"] else 365
    return trend.seasonal_cycle_model(g.normal(size=p["n"]), daysinyear=d)


@op("pv_colormap", "misc", [])
def _pvc(I, p):
    a, b = util.get_pv_colormap()
    return (list(a), list(b))


@op("xgcm_grid", "misc", ["uv"], params=lambda r: {"names": r.random() < 0.4, "sym": r.random() < 0.4}, force=_uv_force)
def _xg(I, p):
    ds, kw = _uvmap(I["uv"], p)
    return util.get_xgcm_grid(ds, coord_dict=kw.get("coord_dict"), symmetric=bool(p["sym"]))


@op("reset_encoding", "misc", ["series"], params=lambda r: {"what": r.choice(["ds", "var_a"]), "attrs": r.choice([None, ["dtype"], ["chunks"]])})
def _re(I, p):
    # edits its argument by design: give it a copy and show the encodings
    x = _pick(I["series"], p["what"]).copy(deep=True)
    y = util._mod.reset_encoding(x, attrs=None if p["attrs"] is None else list(p["attrs"]))
    vs = y.variables if isinstance(y, xr.Dataset) else {"_": y.variable}
    return [y, str(y.encoding), {str(k): str(v.encoding) for k, v in vs.items()}]


@op("cell_area", "misc", ["grid"], params=lambda r: {"as": r.choice(["xr", "xr", "np", "list"]), "r": r.choice([6371.0e3, 6378.0e3])})
def _ca(I, p):
    g = I["grid"]
    if p["as"] == "xr":
        return util.standard_grid_cell_area(da(g, "lat"), da(g, "lon"), r_earth=p["r"])
    if p["as"] == "np":
        return util.standard_grid_cell_area(g["lat"].values, g["lon"].values, r_earth=p["r"])
    return util.standard_grid_cell_area(g["lat"].values.tolist(), g["lon"].values.tolist(), r_earth=p["r"])


@op("tile_coords", "misc", ["gauge"], params=lambda r: {"warn": r.random() < 0.5})
def _tc(I, p):
    return util.tile_nominal_coords(da(I["gauge"], "xh"), da(I["gauge"], "yh"), warn=p["warn"])


@op("valid_area", "misc", ["ocean"], params=lambda r: {"f": r.choice([1.0, 1.0, 1.5, 0.5]), "tol": r.choice([0.02, 0.02, 0.9])})
def _va(I, p):
    return util.validate_areacello(I["ocean"]["areacello"] * p["f"], tolerance=p["tol"])


@op("validate", "misc", ["ocean"], params=lambda r: {"drop": r.sample(["thetao", "so", "volcello", "areacello", "deptho", "z_i"], r.choice([0, 0, 1, 2, 3])), "rank": r.random() < 0.3, "area": r.choice([1.0, 1.0, 2.0]), "strict": r.random() < 0.6, "ref": r.random() < 0.3, "extra": r.choice([None, "deptho", ["z_i", "deptho", "wet", "foo"]])})
def _val(I, p):
    ds = I["ocean"].drop_vars([v for v in p["drop"]])
    if p["area"] != 1.0 and "areacello" in ds:
        ds["areacello"] = ds["areacello"] * p["area"]
    if p["rank"] and "so" in ds:
        ds["so"] = ds["so"].isel(time=0)
    out = io.StringIO()
    extra = list(p["extra"]) if isinstance(p["extra"], list) else p["extra"]
    err = None
    with contextlib.redirect_stdout(out), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            util.validate_dataset(ds, reference=p["ref"], strict=p["strict"], additional_vars=extra)
        except Exception as e:
            if getattr(e, "dsim", False) or p.get("_raise"):
                raise
            err = f"{type(e).__name__}: {e}"
    return [out.getvalue(), str(err), [str(x.message) for x in w]]


@op("units_factor", "misc", [], params=lambda r: {"a": r.choice(UNITS[1:]), "b": r.choice(UNITS[1:]), "dm": r.choice([30.417, 30.0]), "dy": r.choice([365.0, 360.0])})
def _uf(I, p):
    return trend.time_conversion_factor(p["a"], p["b"], days_per_month=p["dm"], days_per_year=p["dy"])


@op("rel_vort_missing", "misc", ["uv"], params=lambda r: {"drop": r.sample(["uo", "vo", "dxCu", "dyCv", "areacello_bu"], r.choice([1, 2, 3]))})
def _rvm(I, p):
    return derived.calc_rel_vort(I["uv"].drop_vars(p["drop"]))


@op("steric_reject", "misc", ["ocean"], params=lambda r: {"drop": r.sample(["thetao", "so", "volcello", "areacello", "deptho"], r.choice([1, 2, 3])), "variant": r.choice(["steric", "thermosteric"])})
def _sj(I, p):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            ml.steric(I["ocean"].drop_vars(p["drop"]), variant=p["variant"])
            return [out.getvalue(), "accepted"]
        except Exception as e:
            if getattr(e, "dsim", False) or p.get("_raise"):
                raise
            return [out.getvalue(), f"{type(e).__name__}: {e}"]


# ------------------------------------------------------------ synthetic data


def _gen_params(r):
    return {"start": r.choice([1981, 2000, 1850]), "years": r.choice([0, 0, 1, 2]), "calendar": r.choice(["noleap", "standard", "julian", "360_day"]), "seed": r.choice([123, 123, 5, 77])}


op("gen_ocean", "synthetic", [], params=_gen_params)(lambda I, p: td.generate_test_data(start_year=p["start"], nyears=p["years"], calendar=p["calendar"], seed=p["seed"]))
op("gen_uv", "synthetic", [], params=_gen_params)(lambda I, p: td.generate_test_data_uv(start_year=p["start"], nyears=p["years"], calendar=p["calendar"], seed=p["seed"]))
op("gen_dz", "synthetic", [], params=lambda r: {"seed": r.choice([123, 5, 77])})(lambda I, p: td.generate_test_data_dz(seed=p["seed"]))
op("gen_time", "synthetic", [], params=lambda r: {**_gen_params(r), "years": r.choice([1, 2, 3]), "freq": r.choice(["MS", "MS", "D"])})(
    lambda I, p: td.generate_test_data_time(start_year=p["start"], nyears=p["years"], calendar=p["calendar"], seed=p["seed"], frequency=p["freq"])
)
op("gen_stub", "synthetic", [], params=lambda r: {**_gen_params(r), "years": r.choice([1, 2]), "freq": r.choice(["MS", "D"])})(
    lambda I, p: td_time.generate_time_stub(start_year=p["start"], nyears=p["years"], calendar=p["calendar"], frequency=p["freq"])
)
op("gen_days", "synthetic", [], params=lambda r: {**_gen_params(r), "years": 1})(lambda I, p: list(td_time.generate_daily_timeaxis(start_year=p["start"], nyears=p["years"], calendar=p["calendar"])))
op("gen_xy", "synthetic", [], params=lambda r: {"point": r.choice("huvc"), "seed": r.choice([123, 5, 77])})(
    lambda I, p: td.tripolar.xy_fields(point=p["point"], seed=p["seed"])
)
op("gen_z", "synthetic", [], params=lambda r: {"deptho": r.random() < 0.7, "seed": r.choice([123, 5, 77])})(
    lambda I, p: td.tripolar.zlevel_fields(include_deptho=p["deptho"], seed=p["seed"])
)
