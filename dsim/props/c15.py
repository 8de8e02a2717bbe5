"""Campaigns: a computation done in pieces by processes that get killed."""

import hashlib
import os
import shutil
import sys

import dask
import numpy as np
import xarray as xr

from .. import calls, compare, inputs, ops, proc, world
from ..ops import OPS
from ..threads import _in_repo

ID = "C15"
RULE = (
    "A run is a campaign: an input saved to netCDF, a computation, its split into pieces, the order of the pieces, and a sequence of process lives, "
    "each killed at a drawn point (at a line of the package, before or after writing a piece, in the middle of writing it, before or after its rename) "
    "until the kill budget is spent; later lives see only what is on disk, and scratch files other than the campaign's may be lost or torn.  Or it is a "
    "single result saved by one process and read back by another.  Non-trivial: at least two pieces or one save and reload, of a computation that is accepted in one pass.  "
    "Distinct: computation, options, world, split, order and kills."
)
ASSUMPTIONS = [
    "a piece counts as done when its output file was renamed into place; unfinished output files are discarded by the next life",
    "values stored in single precision at the routine's own request are compared at single precision",
    "kills end the process at once (no cleanup), and lose nothing that was already renamed into place",
]
REAL = ["momlevel", "xarray and netCDF4 files on disk", "process death (_exit in forked processes)"]
STUB = ["the point of death", "loss and tearing of scratch files", "clock, entropy"]

# computations done by time segment: routine -> options that keep it pointwise in time
SEGMENT = {
    "rho": {"slice": None}, "alpha": {"slice": None}, "beta": {"slice": None},
    "pdens": {"slice": None, "patm": 101325.0},
    "n2": {"slice": None, "patm": 101325.0, "adjust": False},
    "stability_angle": {"slice": None},
    "masso": {"slice": None, "rhoga": False, "tname": "time"},
    "rel_vort": {}, "pv": {}, "spice": {"slice": None}, "inverse_barometer": {},
    "tidegauge": {"slice": None},
}
YEARS = {"annual_average": {"tname": "time"}, "monthly_average": {"tname": "time"}}
TILES = {
    "linear_trend": {"dim": "time"}, "detrend": {"dim": "time"}, "fitted_line": {},
    "deseason": {}, "deseason_daily": {}, "seasonal_model": {}, "seasonal_model_daily": {},
}
KILLS = ["line", "line", "line", "line", "loaded", "computed", "torn write", "before rename", "after rename", "reference"]


def runs(tier):
    return {"quick": 1100, "thorough": 25000}[tier]


def _cuts(r, n, least=1):
    k = r.choice([1, 2, 2, 3, 4])
    return sorted(set(r.sample(range(1, n), min(k, n - 1)))) if n > 1 else []


def gen(r, tier):
    kind = r.choice(["sealevel", "sealevel", "segment", "segment", "years", "tiles", "tiles", "save"])
    plan = {"kind": kind, "ref": None}
    if kind == "sealevel":
        o = OPS["steric"]
        p = o.params(r)
        p.update(names=None, varmap=False, verbose=False)
        specs = inputs.draw_specs(o, p, r)
        if not p["annual"] and specs["ocean"]["nt"] < 2:
            specs["ocean"]["nt"] = r.choice([2, 3, 4, 5])
        plan["ref"] = {"index": r.choice([0, 0, -1])}
        n = specs["ocean"]["nt"] // 12 if p["annual"] else specs["ocean"]["nt"]
        plan["cuts"] = _cuts(r, n)
    elif kind == "segment":
        o = OPS[r.choice(sorted(SEGMENT))]
        p = {**o.params(r), **SEGMENT[o.name]}
        if o.name in ("pdens", "n2"):
            p["patm"] = r.choice([101325.0, "series"])  # the field at the first time is another one in every segment
        specs = inputs.draw_specs(o, p, r)
        k = next(iter(specs))
        if specs[k].get("taxis") == "month" and specs[k]["nt"] > 12:
            specs[k]["nt"] = 12
        specs[k]["nt"] = max(2, specs[k]["nt"])
        plan["cuts"] = _cuts(r, specs[k]["nt"])
    elif kind == "years":
        o = OPS[r.choice(sorted(YEARS))]
        p = {**o.params(r), **YEARS[o.name]}
        specs = inputs.draw_specs(o, p, r)
        k = next(iter(specs))
        specs[k]["years"] = max(2, specs[k]["years"])
        plan["cuts"] = _cuts(r, specs[k]["years"])
    elif kind == "tiles":
        o = OPS[r.choice(sorted(TILES))]
        p = {**o.params(r), **TILES[o.name]}
        if p.get("what") in ("zeta_1", "num"):
            p["what"] = r.choice(["var_a", "var_b"])
        specs = inputs.draw_specs(o, p, r)
        k = next(iter(specs))
        specs[k]["ny"], specs[k]["nx"] = max(2, specs[k]["ny"]), max(2, specs[k]["nx"])
        plan["cuts"] = _cuts(r, specs[k]["ny"])
        plan["xcuts"] = _cuts(r, specs[k]["nx"]) if r.random() < 0.5 else []
    else:
        c = calls.draw(r, groups=("steric", "derived", "average", "trend", "seasonal", "gauge", "synthetic"), exclude=("gen_days",))
        o, p, specs = OPS[c["op"]], c["p"], c["specs"]
        plan["cuts"] = []
    for s in specs.values():
        if "fdtype" in s:
            s["fdtype"] = r.choice(["f8", "f8", "f4"])
        s.pop("np_time", None)  # files are decoded to cftime dates here
        if s.get("deep") == "flat":
            s["deep"] = "lev"
    plan.update(
        op=o.name,
        p=p,
        specs=specs,
        open=r.choice(["load", "load", "lazy", "chunks"]),
        file={"zlib": r.random() < 0.4, "chunked": r.random() < 0.4, "unlimited": r.random() < 0.5},
        kills=r.choice([0, 1, 2, 3, 4, 6]),
        lives=r.choice([1, 2, 3]),
        shared_home=r.random() < 0.7,
    )
    return plan


# ------------------------------------------------------------------- one life


def write_input(plan, path):
    for k, s in plan["specs"].items():
        ds = world.build(s)
        ds.encoding = {}
        for v in ds.variables:
            ds[v].encoding = {}
            ds[v].attrs = {a: x for a, x in ds[v].attrs.items() if x is not None}
        enc = {}
        for v in ds.data_vars:
            if ds[v].dtype.kind == "f" and ds[v].ndim >= 2:
                e = {}
                if plan["file"]["zlib"]:
                    e["zlib"] = True
                if plan["file"]["chunked"]:
                    e["chunksizes"] = tuple(1 if i == 0 else n for i, n in enumerate(ds[v].shape))
                enc[v] = e
        ul = ["time"] if plan["file"]["unlimited"] and "time" in ds.dims else []
        ds.to_netcdf(path, encoding=enc, unlimited_dims=ul)


def read_input(plan, path):
    ds = xr.open_dataset(path, use_cftime=True, chunks={"time": 1} if plan["open"] == "chunks" else None)
    if plan["open"] == "load":
        ds = ds.load()
        ds.close()
    return ds


def reference_of(plan, full):
    p = plan["p"]
    return ops.reference.setup_reference_state(full, patm=_patm(plan, full), eos=p["eos"], time_index=plan["ref"]["index"])


def _patm(plan, full):
    return full["pso"].isel(time=0, drop=True).load() if plan["p"]["patm"] == "field" else plan["p"]["patm"]


def compute(plan, full, part, ref, csv):
    o, p = OPS[plan["op"]], plan["p"]
    if plan["kind"] == "sealevel":
        with ops.quiet():
            res, _ = ops.ml.steric(
                part, reference=ref, patm=_patm(plan, full), rhozero=p["rhozero"], equation_of_state=p["eos"],
                domain=p["domain"], dtype=p["dtype"], strict=p["strict"], annual=p["annual"], variant=p["variant"],
            )
        return res
    k = next(iter(plan["specs"]), None)
    I = {k: part} if k else {}
    if "csv" in o.kinds:
        I["csv"] = csv
    return o.call(I, p)


def save(obj, path):
    if isinstance(obj, tuple):
        for i, x in enumerate(obj):
            save(x, f"{path}.{i}")
    else:
        obj.to_netcdf(path, engine="netcdf4")


def reload(path, n):
    if n > 1:
        return tuple(xr.open_dataset(f"{path}.{i}", use_cftime=True).load() for i in range(n))
    return xr.open_dataset(path, use_cftime=True).load()


def bare(obj):
    """Arrays as the dataset that saving makes of them."""
    if isinstance(obj, tuple):
        return tuple(bare(x) for x in obj)
    if isinstance(obj, xr.DataArray):
        return obj.to_dataset(name="__xarray_dataarray_variable__" if obj.name is None or obj.name in obj.coords or obj.name in obj.dims else obj.name)
    return obj


def pieces(plan, full):
    """(label, selection of the input, selection of the result)"""
    if plan["kind"] == "save":
        return [({}, {})]
    c = plan["cuts"]
    if plan["kind"] == "tiles":
        out = []
        k = next(iter(plan["specs"]))
        for a, b in zip([0] + c, c + [None]):
            for e, f in zip([0] + plan["xcuts"], plan["xcuts"] + [None]):
                s = {"lat": slice(a, b), "lon": slice(e, f)}
                out.append((s, s))
        return out
    if plan["kind"] == "years" or (plan["kind"] == "sealevel" and plan["p"]["annual"]):
        yrs = [t.year for t in full["time"].values]
        first = sorted(set(yrs))
        starts = [yrs.index(y) for y in first] + [len(yrs)]
        out = []
        per = 12 if plan["op"] == "monthly_average" else 1
        for a, b in zip([0] + c, c + [len(first)]):
            out.append(({"time": slice(starts[a], starts[b])}, {"time": slice(a * per, b * per)}))
        return out
    return [({"time": slice(a, b)}, {"time": slice(a, b)}) for a, b in zip([0] + c, c + [None])]


def die():
    os._exit(9)


def life(plan, d, order, kill):
    """One process: works on the pending pieces until it is done or killed.

    kill: None or (piece position, kind, argument)"""
    # Leave a note of an error for the coordinator, as a batch system would
    where = os.path.join(d, "error.txt")
    try:
        with dask.config.set(scheduler="sync"):
            full = read_input(plan, os.path.join(d, "in.nc"))
            ref = None
            if plan["ref"]:
                rp = os.path.join(d, "ref.nc")
                if not os.path.exists(rp):
                    if kill and kill[1] == "reference" and kill[0] == 0:
                        trace_kill(kill[2])
                    r = reference_of(plan, full)
                    r.to_netcdf(rp + ".tmp")
                    sys.settrace(None)
                    os.rename(rp + ".tmp", rp)
                ref = xr.open_dataset(rp, use_cftime=True)
                if plan["open"] == "load":
                    ref = ref.load()
            P = pieces(plan, full)
            for pos, k in enumerate(order):
                out = os.path.join(d, f"out{k}.nc")
                point, arg = (kill[1], kill[2]) if kill and kill[0] == pos else (None, 0)
                part = full.isel({x: s for x, s in P[k][0].items() if x in full.dims})
                if point == "loaded":
                    die()
                if point == "line":
                    trace_kill(arg)
                r = compute(plan, full, part, ref, os.path.join(d, "stations.csv"))
                if point == "computed":
                    die()
                n = len(r) if isinstance(r, tuple) else 1
                save(r, out + ".tmp")
                sys.settrace(None)
                if point == "torn write":
                    f = out + ".tmp" if n == 1 else out + ".tmp.0"
                    with open(f, "r+b") as fh:
                        fh.truncate(int(os.path.getsize(f) * (arg % 97) / 97))
                    die()
                if point == "before rename":
                    die()
                for i in range(n) if n > 1 else [None]:
                    sfx = "" if i is None else f".{i}"
                    os.rename(f"{out}.tmp{sfx}", f"{out}{sfx}")
                with open(f"{out}.done", "w") as f:
                    f.write(str(n))
                if point == "after rename":
                    die()
    except BaseException as e:
        sys.settrace(None)
        with open(where, "w") as f:
            f.write(f"{type(e).__name__}: {str(e)[:300]}")
        os._exit(1)


def trace_kill(n):
    left = [n]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] < 0:
                os._exit(9)
        return local

    def trace(frame, event, arg):
        return local if _in_repo(frame.f_code.co_filename) else None

    sys.settrace(trace)


def tear(d, dec, ctx):
    """Scratch files (not the campaign's own) after a kill: kept, lost or torn."""
    for root in ("home", "tmp", "cwd"):
        for p, _, fs in os.walk(os.path.join(d, root)):
            for f in sorted(fs):
                q = os.path.join(p, f)
                what = dec.choose("scratch", 4)
                if what == 2:
                    os.remove(q)
                    ctx.fault("scratch file lost")
                elif what == 3:
                    n = os.path.getsize(q)
                    with open(q, "r+b") as fh:
                        fh.truncate(n * dec.choose("tear", 97) // 97)
                    ctx.fault("scratch file torn")


def in_home(d, fn):
    """Run fn in a forked process whose home, temporary and working directory are the campaign's."""
    pid = os.fork()
    if pid == 0:
        try:
            settle(d)
            fn()
            os._exit(0)
        finally:
            os._exit(70)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


def settle(d):
    import tempfile

    for n in ("home", "tmp", "cwd"):
        os.makedirs(os.path.join(d, n), exist_ok=True)
    os.environ.update(HOME=os.path.join(d, "home"), TMPDIR=os.path.join(d, "tmp"), XDG_CACHE_HOME=os.path.join(d, "home", ".cache"))
    tempfile.tempdir = None
    os.chdir(os.path.join(d, "cwd"))


# ------------------------------------------------------------------- campaign


def run(plan, dec, ctx):
    compare.STORED = False  # files have their own
    d = os.path.join(ctx.scratch, "work")
    one = os.path.join(ctx.scratch, "onepass")
    os.mkdir(d)
    os.mkdir(one)
    for x in (d, one):
        if plan["specs"]:
            write_input(plan, os.path.join(x, "in.nc"))
        else:
            xr.Dataset().to_netcdf(os.path.join(x, "in.nc"))
        if "csv" in OPS[plan["op"]].kinds:
            with open(os.path.join(x, "stations.csv"), "w") as f:
                f.write(world.stations(plan["specs"]["gauge"]))

    # one uninterrupted pass, in a process of its own
    def whole():
        settle(one)
        with dask.config.set(scheduler="sync"):
            full = read_input(plan, os.path.join(one, "in.nc"))
            ref = reference_of(plan, full).compute() if plan["ref"] else None
            try:
                r = compute(plan, full, full, ref, os.path.join(one, "stations.csv"))
                r = compare.to_plain(r, lambda y: y.compute())
            except Exception as e:
                return ("err", type(e).__name__, str(e)[:300]), None
            if not isinstance(r, (tuple, xr.DataArray, xr.Dataset)):
                return ("err", "not a field", ""), None
            return ("ok", bare(r), bare(ref)), [(a, b) for a, b in pieces(plan, full)]

    st, v = proc.call_in_fork(whole)
    if st != "ok":
        raise RuntimeError("one-pass process failed: " + v)
    exp, P = v
    ctx.probe(f"op {plan['op']}")
    ctx.probe(f"campaign {plan['kind']}")
    ctx.info = {"kind": plan["kind"], "op": plan["op"], "pieces": len(P or [])}
    if exp[0] == "err":
        ctx.nontrivial = False
        ctx.key = "refused"
        ctx.probe("refused in one pass")
        return []

    n = len(P)
    kills = plan["kills"]
    lives, trail = 0, []
    limit = plan["kills"] + plan["lives"] + n + 2
    while True:
        todo = [k for k in range(n) if not os.path.exists(os.path.join(d, f"out{k}.nc.done"))]
        if not todo:
            break
        if lives >= limit:
            return [f"{plan['op']}: campaign did not finish within {limit} lives: pieces {todo} still missing"]
        for f in sorted(os.listdir(d)):
            if ".tmp" in f:
                os.remove(os.path.join(d, f))
        order = []
        while todo:
            order.append(todo.pop(dec.choose("order", len(todo))))
        kill = None
        if kills and dec.chance("kill", 0.85):
            kind = KILLS[dec.choose("kind", len(KILLS))]
            kill = (dec.choose("piece", min(len(order), 3)), kind, dec.choose("arg", 60 if kind == "reference" else 220))
        if plan["lives"] > 1 and not kill:
            order = order[: 1 + len(order) // plan["lives"]]
        lives += 1
        code = in_home(d, lambda: life(plan, d, order, kill))
        err = os.path.join(d, "error.txt")
        if os.path.exists(err):
            return [f"{plan['op']}: a piece fails although one pass works: {open(err).read()} (after {lives - 1} earlier lives; order {order})"]
        if code == 9:
            kills -= 1
            ctx.fault("process killed: " + kill[1])
            trail.append(kill)
            tear(d, dec, ctx)
            if not plan["shared_home"]:
                for x in ("home", "tmp", "cwd"):
                    shutil.rmtree(os.path.join(d, x), ignore_errors=True)
        elif code != 0:
            return [f"{plan['op']}: a life ended with status {code}"]
    ctx.probe("process lives", lives)
    ctx.virtual_s += 3600.0 * lives
    bad = []

    def collect():
        settle(d)
        out = []
        for k in range(n):
            nn = int(open(os.path.join(d, f"out{k}.nc.done")).read())
            out.append(reload(os.path.join(d, f"out{k}.nc"), nn))
        ref = xr.open_dataset(os.path.join(d, "ref.nc")).load() if plan["ref"] else None
        return out, ref

    st, v = proc.call_in_fork(collect)
    if st != "ok":
        return [f"{plan['op']}: a saved result cannot be read back: {v.strip().splitlines()[-1]}"]
    got, ref = v
    tol = (1e-9, 10 * OPS[plan["op"]].tol(plan["specs"])[1])
    if plan["kind"] == "tiles":
        tol = (1e-7, tol[1])
    single = any(s.get("fdtype") == "f4" for s in plan["specs"].values())
    for k in range(n):
        bad += [f"{plan['op']} in pieces: piece {k}: {x}" for x in diff(select(exp[1], P[k][1]), got[k], tol, single)[:2]]
    if plan["ref"] and not bad:
        bad += [f"{plan['op']} reference saved and read back: {x}" for x in diff(exp[2], ref, (1e-12, 0.0))[:2]]
    ctx.nontrivial = True
    ctx.probe("pieces", n)
    ctx.key = hashlib.sha256(f"{plan['op']}{plan['p']}{plan['specs']}{plan['cuts']}{plan.get('xcuts')}{trail}{dec.digest()}".encode()).hexdigest()[:20]
    ctx.info["kills"] = [list(t) for t in trail]
    return bad


def select(obj, sel):
    if isinstance(obj, tuple):
        return tuple(select(x, sel) for x in obj)
    return obj.isel({k: s for k, s in sel.items() if k in obj.dims})


def _flatten_attrs(snap):
    """One-element sequences are scalars in a file; dates are compared by calendar."""

    def attr(v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "seq":
            return v[1]
        return v

    def var(v):
        v["attrs"] = [(k, attr(x)) for k, x in v["attrs"]]
        a = v["values"]
        if a.dtype.kind in "OU":
            f = np.empty(a.size, dtype=object)
            f[:] = [(x.calendar, x.isoformat()) if hasattr(x, "calendar") else (str(x) if isinstance(x, str) else x) for x in a.ravel()]
            v["values"] = f

    for x in snap["items"] if snap["kind"] == "seq" else [snap]:
        for k in ("data_vars", "coords"):
            for _, v in x[k]:
                var(v)
        x["attrs"] = [(k, attr(v)) for k, v in x["attrs"]]
    return snap


def _widen(snap):
    """Stored single-precision values as doubles: compared at their own rounding."""
    for x in snap["items"] if snap["kind"] == "seq" else [snap]:
        for k in ("data_vars", "coords"):
            for _, v in x[k]:
                if v["values"].dtype == np.float32:
                    v["values"] = v["values"].astype("f8")
    return snap


def diff(a, b, tol, single=True):
    a, b = _flatten_attrs(compare.snapshot(a)), _flatten_attrs(compare.snapshot(b))
    if not single:  # double-precision input: rounding on storage is the only loss
        tol = (max(tol[0], 1.3e-7) if "'float32'" in str([v["dtype"] for x in (b["items"] if b["kind"] == "seq" else [b]) for k in ("data_vars", "coords") for _, v in x[k]]) else tol[0], tol[1])
        a, b = _widen(a), _widen(b)
    return compare.differences(a, b, tol, order=False, dtypes=False)


def simplify(plan):
    if plan["kills"]:
        yield {**plan, "kills": 0}
        yield {**plan, "kills": plan["kills"] - 1}
    if plan["lives"] > 1:
        yield {**plan, "lives": 1}
    for f in ("cuts", "xcuts"):
        for i in range(len(plan.get(f) or [])):
            yield {**plan, f: plan[f][:i] + plan[f][i + 1 :]}
    if plan["open"] != "load":
        yield {**plan, "open": "load"}
    if any(plan["file"].values()):
        yield {**plan, "file": {k: False for k in plan["file"]}}
    for s in inputs.simplify_specs(plan["specs"]):
        k = next(iter(s))
        n = {"tiles": s[k].get("ny"), "years": s[k].get("years")}.get(plan["kind"], s[k].get("nt"))
        if plan["kind"] == "sealevel" and plan["p"]["annual"]:
            continue
        if n is None or all(c < n for c in plan["cuts"]) and all(c < s[k].get("nx", 0) for c in plan.get("xcuts") or []):
            yield {**plan, "specs": s}
