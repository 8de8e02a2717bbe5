"""Input data of simulated runs, built from small JSON specs.

A world spec fixes one input object completely.  `sibling(spec, rng)` gives a
spec that looks alike (same kind, shape, names, usually same dates) but holds
something else: the shape of bugs that key a cache or a graph on too little.
"""

import random

import cftime
import numpy as np
import xarray as xr

CALENDARS = ["noleap", "standard", "360_day", "julian", "all_leap", "proleptic_gregorian"]
AREA = 3.6111092e14


def _axis_attrs(kind, extra=0):
    a = {
        "t": {"long_name": "time", "cartesian_axis": "T", "bounds": "time_bnds"},
        "z": {"long_name": "Depth at cell center", "units": "meters", "positive": "down"},
        "zi": {"long_name": "Depth at interface", "units": "meters", "positive": "down"},
        "y": {"long_name": "h point nominal latitude", "units": "degrees_north"},
        "x": {"long_name": "h point nominal longitude", "units": "degrees_east"},
    }[kind]
    a = dict(a)
    if extra:
        a["history"] = f"edition {extra}"
    return a


def month_mid(start, nmonths, calendar):
    out, bnds = [], []
    y, m = start, 1
    for _ in range(nmonths):
        b0 = cftime.datetime(y, m, 1, calendar=calendar)
        m2, y2 = (1, y + 1) if m == 12 else (m + 1, y)
        b1 = cftime.datetime(y2, m2, 1, calendar=calendar)
        out.append(b0 + (b1 - b0) / 2)
        bnds.append((b0, b1))
        y, m = y2, m2
    return out, bnds


def days(start, nyears, calendar):
    import datetime as dt

    d = cftime.datetime(start, 1, 1, 12, calendar=calendar)
    end = cftime.datetime(start + nyears, 1, 1, calendar=calendar)
    out = []
    while d < end:
        out.append(d)
        d = d + dt.timedelta(days=1)
    return out


# ------------------------------------------------------------------- sampling


_OCEAN = {"nz": [12, 20, 36], "ny": [9, 17], "nx": [10, 18, 33], "nt": [36, 60]}
LARGE = {
    "ocean": _OCEAN,
    "uv": _OCEAN,
    "series": {"years": [7, 11, 30], "ny": [9, 16], "nx": [11, 18]},
    "daily": {"years": [3, 5], "ny": [9], "nx": [11]},
    "gauge": {"ny": [12, 21], "nx": [16, 33], "nt": [13, 40], "sites": [15, 40]},
    "grid": {"ny": [45, 90], "nx": [72, 144]},
}


def sample(kind, r, small=False, **force):
    """A spec of the given kind."""
    s = {"kind": kind, "seed": r.randrange(1 << 30), "edition": 0}
    if kind in ("ocean", "uv"):
        s.update(
            nz=r.choice([3, 3, 4, 5, 6, 7]),
            ny=r.choice([2, 3, 4, 5]),
            nx=r.choice([2, 3, 4, 5, 6]),
            land=r.choice([0.0, 0.2, 0.2, 0.4]),
            fdtype=r.choice(["f8", "f8", "f8", "f4"]),
            taxis=r.choice(["index", "month", "month"]),
            calendar=r.choice(CALENDARS),
            start=r.choice([1, 97, 1850, 1981, 2000, 2003]),
            static_eager=r.choice([False, False, True]),
            coords2d=r.choice([False, True]),
        )
        if s["taxis"] == "index":
            s["nt"] = r.choice([1, 2, 3, 5, 6])
        else:
            s["nt"] = r.choice([1, 2, 3, 5, 12, 12, 24])
        if small:
            s.update(nt=min(s["nt"], 3), nz=min(s["nz"], 4), ny=min(s["ny"], 3), nx=min(s["nx"], 3))
    elif kind in ("series", "daily"):
        s.update(
            ny=r.choice([1, 2, 3, 4, 5]),
            nx=r.choice([1, 2, 3, 4, 6]),
            calendar=r.choice(CALENDARS),
            start=r.choice([1, 97, 1850, 1981, 2000, 2003]),
            years=r.choice([1, 2, 2, 3, 4]) if kind == "series" else r.choice([1, 1, 2]),
            gaps=r.choice(["none", "none", "land", "land", "holes"]),
            units=r.choice([None, "m", "degC"]),
            order=r.choice(["tyx", "tyx", "tyx", "ytx", "yxt"]),
            extra=r.choice([False, False, True]),
            bounds=r.choice([False, True]),
            fdtype=r.choice(["f8", "f8", "f8", "f4"]),
            deep=r.choice([None, None, None, None, "lev", "flat"]),
            counts=r.random() < 0.35,
        )
        if small:
            s.update(ny=min(s["ny"], 2), nx=min(s["nx"], 2), years=r.choice([1, 1, 2, 3]) if kind == "series" else 1)
    elif kind == "gauge":
        s.update(
            ny=r.choice([3, 4, 6]),
            nx=r.choice([3, 5, 8]),
            nt=r.choice([1, 2, 4, 7]),
            land=r.choice([0.0, 0.3, 0.5]),
            shape=r.choice(["2d", "2d", "1d"]),
            sites=r.choice([1, 2, 4, 7]),
            lonsys=r.choice(["180", "360", "neg"]),
            csvstyle=r.choice(["plain", "plain", "plain", "psmsl", "dup", "spare", "twin", "odd"]),
            outage=r.choice([0.0, 0.0, 0.4, 0.75]),
        )
        if small:
            s.update(ny=3, nx=3, nt=2)
    elif kind == "grid":
        s.update(ny=r.choice([2, 4, 9, 18]), nx=r.choice([2, 3, 8, 12]))
    else:
        raise KeyError(kind)
    if not small and r.random() < 0.08:  # now and then far more of something than usual
        for f in r.sample(sorted(LARGE[kind]), 1 if r.random() < 0.6 else 2):
            if f in s:
                s[f] = r.choice(LARGE[kind][f])
    s.update(force)
    return s


def sibling(spec, r, what=None):
    """A look-alike of `spec`: same names and shape, other content."""
    s = dict(spec)
    kinds = ["values", "values", "edition", "both", "near", "near"]
    if spec["kind"] in ("ocean", "uv"):
        kinds += ["static", "start", "mask"]
    if spec["kind"] in ("series", "daily"):
        kinds += ["start", "calendar", "leap", "leap"]
    if spec["kind"] == "gauge":
        kinds += ["sites", "shift", "mask"]
    what = what or r.choice(kinds)
    n = r.randrange(1, 1 << 20)
    if what in ("values", "both"):
        s["values"] = n  # same distribution, other draws (and permuted mean)
    if what in ("edition", "both"):
        s["edition"] = n % 97 + 1  # metadata only
    if what == "static":
        s["static"] = n
    if what == "near":
        s["near"] = n  # a few values swapped: same shape, ends, sums and extremes
    if what == "start":
        near = [x for x in (spec["start"] - 1, spec["start"] + 1, spec["start"] + 2, spec["start"] + 4) if x > 0]
        s["start"] = r.choice([x for x in [1, 97, 1850, 1981, 2000, 2003] if x != spec["start"]] + near)
    if what == "leap":  # leap years fall elsewhere
        s["start"] = max(1, spec["start"] + r.choice([-2, -1, 1, 2]))
    if what == "calendar":
        s["calendar"] = r.choice([c for c in ["noleap", "julian", "standard", "360_day"] if c != spec["calendar"]])
    if what == "mask":
        s["mask"] = n
    if what == "sites":
        s["sitesrc"] = n
    if what == "shift":
        s["shift"] = n % 7 + 1
    return s


# ------------------------------------------------------------------- building


def build(spec):
    ds = {
        "ocean": _ocean,
        "uv": _uv,
        "series": _series,
        "daily": _series,
        "gauge": _gauge,
        "grid": _grid,
    }[spec["kind"]](spec)
    if spec.get("near"):
        _swap(ds, random.Random(spec["near"]))
    return ds


def _swap(ds, r):
    """Exchange two values in the interior of some variables (one may be the missing value)."""
    names = sorted(str(v) for v in ds.data_vars if ds[v].dtype.kind == "f" and ds[v].size > 3)
    if not names:
        return
    pick = set(r.sample(names, r.choice([1, 1, 2, len(names)]) if len(names) > 1 else 1))
    if "wet" in ds:  # masks and the field they belong to change together
        pick |= {"wet", "wetnan"} if pick & {"wet", "wetnan"} else set()
    u = (r.random(), r.random())
    for v in sorted(pick):
        a = np.array(ds[v].values)
        f = a.reshape(-1)
        n = f.size
        i = 1 + int(u[0] * (n - 2))
        others = [j for j in range(1, n - 1) if not (f[j] == f[i] or (f[j] != f[j] and f[i] != f[i]))]
        if not others:
            continue
        j = others[int(u[1] * len(others))]
        f[i], f[j] = f[j], f[i]
        enc = dict(ds[v].encoding)
        ds[v] = ds[v].copy(data=a)
        ds[v].encoding = enc


def _rng(*parts):
    return np.random.Generator(np.random.PCG64([int(p) & 0xFFFFFFFF for p in parts]))


def _time(ds, s):
    if s["taxis"] == "index":
        t = np.arange(1.0, s["nt"] + 1)
        ds = ds.assign_coords(time=("time", t, _axis_attrs("t", s["edition"])))
    else:
        t, b = month_mid(s["start"], s["nt"], s["calendar"])
        ds = ds.assign_coords(time=("time", t, {**_axis_attrs("t", s["edition"]), "calendar_type": s["calendar"]}))
    return ds


def _ocean(s):
    nt, nz, ny, nx, ed = s["nt"], s["nz"], s["ny"], s["nx"], s["edition"]
    st = _rng(s["seed"], s.get("static", 0), 1)
    mk = _rng(s["seed"], s.get("mask", 0), 2)
    va = _rng(s["seed"], s.get("values", 0), 3)
    ft = np.dtype(s["fdtype"])
    dz = np.round(st.uniform(5.0, 60.0, nz), 2) * np.arange(1, nz + 1)
    z_i = np.concatenate([[0.0], np.cumsum(dz)])
    z_l = (z_i[1:] + z_i[:-1]) / 2.0
    land = mk.uniform(size=(ny, nx)) < s["land"]
    land.flat[int(mk.integers(ny * nx))] = False
    depth = np.where(land, np.nan, st.uniform(0.3, 1.1, (ny, nx)) * z_i[-1])
    depth.flat[int(np.argmin(land.ravel()))] = z_i[-1] * 1.05
    area = st.uniform(0.5, 1.5, (ny, nx))
    area = np.where(land, np.nan, area)
    area = area / np.nansum(area) * AREA * (1 + st.uniform(-0.01, 0.01))
    thick = np.clip(np.nan_to_num(depth)[None] - z_i[:-1, None, None], 0.0, dz[:, None, None])
    dry = thick <= 0.0
    ds = xr.Dataset()
    ds = ds.assign_coords(
        z_l=("z_l", z_l, _axis_attrs("z", ed)),
        z_i=("z_i", z_i, _axis_attrs("zi", ed)),
        yh=("yh", np.linspace(-60, 60, ny) + 0.5, _axis_attrs("y", ed)),
        xh=("xh", np.linspace(-280, 60, nx) + 0.25, _axis_attrs("x", ed)),
    )
    ds = _time(ds, s)
    d4, d2 = ("time", "z_l", "yh", "xh"), ("yh", "xh")
    off = 0.7 * (s.get("values", 0) % 5)
    theta = 22.0 + off - 18.0 * (z_l / z_i[-1])[None, :, None, None] + va.normal(0, 1.0, (nt, nz, ny, nx))
    theta = theta + np.linspace(0, 1.5, nt)[:, None, None, None]
    salt = 34.0 + 1.5 * (z_l / z_i[-1])[None, :, None, None] + va.normal(0, 0.3, (nt, nz, ny, nx))
    vol = (thick * np.nan_to_num(area))[None] * (1.0 + 0.01 * va.normal(size=(nt, nz, ny, nx)))
    for a in (theta, salt, vol):
        a[:, dry] = np.nan
    ds["thetao"] = (d4, theta.astype(ft), {"long_name": "Sea Water Potential Temperature", "units": "degC", "cell_measures": "volume: volcello area: areacello", "edition": ed})
    ds["so"] = (d4, salt.astype(ft), {"long_name": "Sea Water Salinity", "units": "psu", "standard_name": "sea_water_salinity", "edition": ed})
    ds["volcello"] = (d4, vol, {"long_name": "Ocean grid-cell volume", "units": "m3", "edition": ed})
    ds["areacello"] = (d2, area, {"long_name": "Ocean Grid-Cell Area", "units": "m2", "edition": ed})
    if s.get("bad") == "area":
        area = area * 1.4
        ds["areacello"] = (d2, area, {"long_name": "Ocean Grid-Cell Area", "units": "m2", "edition": ed})
    elif s.get("bad") == "depth":
        depth.flat[int(np.argmin(land.ravel()))] *= -1.0
    ds["deptho"] = (d2, depth, {"long_name": "Sea Floor Depth", "units": "m", "edition": ed})
    lon = np.broadcast_to(ds.xh.values[None, :], (ny, nx)) + st.normal(0, 0.01, (ny, nx))
    lat = np.broadcast_to(ds.yh.values[:, None], (ny, nx)) + st.normal(0, 0.01, (ny, nx))
    ds["geolon"] = (d2, lon, {"long_name": "Longitude of tracer (T) points", "units": "degrees_east"})
    ds["geolat"] = (d2, lat, {"long_name": "Latitude of tracer (T) points", "units": "degrees_north"})
    if s.get("edges"):
        # interfaces kept as a plain variable, without an index of their own
        e = z_i.copy()
        if s.get("bad") == "edges":
            e[0] = -e[1] / 4.0
        ds["z_edges"] = (("z_e",), e, {"units": "m", "edition": ed})
    ds["pso"] = (("time", "yh", "xh"), 101325.0 + va.normal(0, 800.0, (nt, ny, nx)), {"units": "Pa"})
    if s["coords2d"]:
        ds = ds.set_coords(["geolon", "geolat"])
    ds.attrs = {"title": f"simulated ocean {s['seed'] % 1000}", "edition": ed, "note": "kept"}
    ds["thetao"].encoding = {"dtype": "float32", "_FillValue": 1e20, "chunksizes": (1, nz, ny, nx)}
    ds["so"].encoding = {"preferred_chunks": {"time": 1}, "zlib": True}
    return ds


def _uv(s):
    nt, nz, ny, nx, ed = s["nt"], s["nz"], s["ny"], s["nx"], s["edition"]
    st = _rng(s["seed"], s.get("static", 0), 11)
    va = _rng(s["seed"], s.get("values", 0), 13)
    ft = np.dtype(s["fdtype"])
    z_l = np.cumsum(st.uniform(5, 50, nz))
    qy, qx = (ny + 1, nx + 1) if s.get("sym") else (ny, nx)
    q0 = 0.5 if s.get("sym") else 1.5
    ds = xr.Dataset().assign_coords(
        z_l=("z_l", z_l, _axis_attrs("z", ed)),
        yh=("yh", np.arange(ny) + 1.0, _axis_attrs("y", ed)),
        xh=("xh", np.arange(nx) + 1.0, _axis_attrs("x", ed)),
        yq=("yq", np.arange(qy) + q0),
        xq=("xq", np.arange(qx) + q0),
    )
    ds = _time(ds, s)
    ds["uo"] = (("time", "z_l", "yh", "xq"), va.normal(0, 0.1, (nt, nz, ny, qx)).astype(ft), {"units": "m s-1"})
    ds["vo"] = (("time", "z_l", "yq", "xh"), va.normal(0, 0.1, (nt, nz, qy, nx)).astype(ft), {"units": "m s-1"})
    ds["dxCu"] = (("yh", "xq"), st.uniform(1e3, 2e3, (ny, qx)))
    ds["dyCv"] = (("yq", "xh"), st.uniform(1e3, 2e3, (qy, nx)))
    ds["areacello_bu"] = (("yq", "xq"), st.uniform(1e6, 4e6, (qy, qx)))
    ds["Coriolis"] = (("yq", "xq"), st.normal(1e-5, 1e-4, (qy, qx)), {"units": "s-1", "edition": ed})
    ds["n2"] = (("time", "z_l", "yh", "xh"), va.normal(1e-5, 1e-5, (nt, nz, ny, nx)), {"units": "s-2", "edition": ed})
    ds.attrs = {"title": "simulated currents", "edition": ed}
    return ds


def _series(s):
    ny, nx, ed = s["ny"], s["nx"], s["edition"]
    st = _rng(s["seed"], 21)
    va = _rng(s["seed"], s.get("values", 0), 23)
    ft = np.dtype(s["fdtype"])
    if s.get("np_time"):
        s = {**s, "calendar": "standard", "start": s["start"] if s["start"] >= 1700 else 1700 + s["start"] % 100}
    if s["kind"] == "series":
        t, b = month_mid(s["start"], 12 * s["years"], s["calendar"])
    else:
        t = days(s["start"], s["years"], s["calendar"])
        b = None
    nt = len(t)
    if s.get("np_time"):  # dates as numpy datetimes, as xarray decodes the standard calendar
        s = {**s, "bounds": False}
        t = np.array([np.datetime64(x.isoformat(), "ns") for x in t])
    ds = xr.Dataset().assign_coords(
        time=("time", t, {**_axis_attrs("t", ed), "calendar_type": s["calendar"]}),
        lat=("lat", np.linspace(-60, 60, ny) + 1.0, _axis_attrs("y", ed)),
        lon=("lon", np.linspace(0, 300, nx) + 2.0, _axis_attrs("x", ed)),
    )
    x = np.arange(nt) / (12.0 if s["kind"] == "series" else 365.0)
    base = 100.0 + 7.0 * (s.get("values", 0) % 5)

    def field():
        a = base + st.normal(0, 10, (1, ny, nx)) + va.normal(0, 5, (1, ny, nx))
        a = a + va.normal(0, 2, (1, ny, nx)) * x[:, None, None]
        a = a + va.normal(0, 4, (1, ny, nx)) * np.sin(2 * np.pi * x)[:, None, None]
        a = a + va.normal(0, 1.0, (nt, ny, nx))
        if s["gaps"] in ("land", "holes") and ny * nx > 1:
            a[:, st.uniform(size=(ny, nx)) < 0.3] = np.nan
        if s["gaps"] == "holes":
            a[st.uniform(size=a.shape) < 0.1] = np.nan
        return a.astype(ft)

    attrs = {"first_attribute": "foo", "edition": ed}
    if s["units"]:
        attrs["units"] = s["units"]
    if s["seed"] % 3:
        attrs["long_name"] = f"sampled field {ed}"
        attrs["standard_name"] = "sea_surface_height"
    order = {"t": "time", "y": "lat", "x": "lon"}
    dims = tuple(order[c] for c in s["order"])
    ds["var_a"] = xr.DataArray(field(), dims=("time", "lat", "lon")).transpose(*dims)
    ds["var_a"].attrs = dict(attrs)
    ds["var_b"] = xr.DataArray(field(), dims=("time", "lat", "lon"))
    if s.get("deep") == "lev":
        ds["var_b"] = xr.concat([ds["var_b"], ds["var_b"] * 0.5 + va.normal(0, 1, nt)[:, None, None].astype(ft)], "lev").transpose("time", "lev", "lat", "lon").astype(ft)
        ds = ds.assign_coords(lev=("lev", [5.0, 15.0], {"units": "m"}))
    elif s.get("deep") == "flat":
        ds["var_b"] = ds["var_b"].isel(lon=0, drop=True)
    ds["var_b"].attrs = {**attrs, "second_attribute": "bar"}
    ds["zeta_1"] = (("time",), (5.0 + 0.3 * x + va.normal(0, 0.2, nt)).astype(ft), {"units": "mm"})
    if s.get("counts"):  # whole numbers beside the fields
        ds["nobs"] = (("time", "lat", "lon"), va.integers(1, 40, (nt, ny, nx)).astype("int32"), {"units": "1"})
    if s["extra"]:
        ds = ds.assign_coords(region=(("lat", "lon"), st.normal(size=(ny, nx))), ens=3)
    if s["bounds"] and b is not None:
        ds["time_bnds"] = (("time", "bnds"), np.array(b, dtype=object))
        ds["average_DT"] = (("time",), np.array([p[1] - p[0] for p in b], dtype="timedelta64[ns]"), {"long_name": "Length of average period"})
    ds.attrs = {"title": "simulated series", "edition": ed}
    ds["var_a"].encoding = {"dtype": "float32", "chunks": (1, 1, 1), "preferred_chunks": {"time": 1}}
    return ds


SITE_NAMES = ["BOSTON", "KEY_WEST", "SAN_DIEGO", "HONOLULU", "BERMUDA", "CRISTOBAL", "ATKA", "NOME"]


def _gauge(s):
    ny, nx, nt, ed = s["ny"], s["nx"], s["nt"], s["edition"]
    st = _rng(s["seed"], s.get("shift", 0), 31)
    mk = _rng(s["seed"], s.get("mask", 0), 32)
    va = _rng(s["seed"], s.get("values", 0), 33)
    lon0 = {"180": -170.0, "360": 5.0, "neg": -275.0}[s["lonsys"]]
    xh = lon0 + np.linspace(0, 340.0 * (nx - 1) / nx, nx) + 0.1 * s.get("shift", 0)
    yh = np.linspace(-70, 70, ny) + 0.1 * s.get("shift", 0)
    ds = xr.Dataset().assign_coords(
        time=("time", np.arange(1.0, nt + 1)),
        yh=("yh", yh, _axis_attrs("y", ed)),
        xh=("xh", xh, _axis_attrs("x", ed)),
    )
    land = mk.uniform(size=(ny, nx)) < s["land"]
    land.flat[int(mk.integers(ny * nx))] = False
    f = va.normal(0, 1, (nt, ny, nx)) + 10.0 * (s.get("values", 0) % 5)
    f[:, land] = np.nan
    f[va.uniform(size=f.shape) < s.get("outage", 0.0)] = np.nan
    ds["zos"] = (("time", "yh", "xh"), f, {"units": "m", "edition": ed})
    ds["geolon"] = (("yh", "xh"), np.broadcast_to(xh[None, :], (ny, nx)) + st.normal(0, 0.2, (ny, nx)))
    ds["geolat"] = (("yh", "xh"), np.broadcast_to(yh[:, None], (ny, nx)) + st.normal(0, 0.2, (ny, nx)))
    ds["wet"] = (("yh", "xh"), np.where(land, 0.0, 1.0))
    ds["wetnan"] = (("yh", "xh"), np.where(land, np.nan, 1.0))
    ds.attrs = {"title": "simulated sea surface height", "edition": ed}
    return ds


def stations(s):
    """Text of a station list that goes with a gauge spec."""
    r = random.Random(s["seed"] * 7 + s.get("sitesrc", 0))
    n = s["sites"]
    names = list(SITE_NAMES)
    r.shuffle(names)
    names += [f"{names[i % 8]}_{i // 8}" for i in range(8, n)]
    style = s.get("csvstyle", "plain")
    rows = [("PSMSL_site" if style == "psmsl" else "name") + ",lat,lon,country,number" + (",note" if style == "spare" else "")]
    for i in range(n):
        # a list may name a station twice, and leave columns empty
        name = names[0] if style == "dup" and i == n - 1 else names[i]
        if style == "odd":  # names as people write them
            name = [f'"{name}, CA"', f"{name} #{i}", f"{name}\u00d1", f'"{name} ""OLD"""', name.lower()][i % 5]
        lat, lon = r.uniform(-75, 75), r.uniform(-175, 175)
        if style == "twin":  # two stations in one place
            lat, lon = (lat, lon) if i != 1 else place
            place = (lat, lon)
        rows.append(f"{name},{lat:.4f},{lon:.4f},{r.choice(['US', 'CA', 'MX'])},{r.randrange(1000)}" + (r.choice([",", ",moved 1981"]) if style == "spare" else ""))
    return "\n".join(rows) + "\n"


def _grid(s):
    ny, nx = s["ny"], s["nx"]
    d = 180.0 / ny
    sh = 0.01 * s.get("values", 0)
    lat = -90 + d / 2 + d * np.arange(ny)
    lon = sh + 360.0 / nx * np.arange(nx)
    ds = xr.Dataset().assign_coords(lat=("lat", lat, {"units": "degrees_north"}), lon=("lon", lon, {"units": "degrees_east", "edition": s["edition"]}))
    return ds
