"""Building deferred results while the storage of time-varying fields is down."""

import hashlib

import dask
import numpy as np

from . import lazymem as lm
from .. import cluster as cl
from .. import compare, inputs, world
from ..ops import OPS, by_group
from ..store import Store, describe_layout, sample_layout

ID = "C07"
RULE = (
    "A run draws a routine and options, an input world held in blocks, and takes the storage of every time-varying field down "
    "while the result is built; it then comes back and the whole result, or one time step or year, is evaluated on a simulated cluster "
    "with the reads logged.  Non-trivial: the routine accepts the input in memory.  Distinct: routine, options, world, layout, decisions."
)
ASSUMPTIONS = [
    "a field is time-varying when it has the time dimension; grid fields may be read while building",
    "for single-step evaluation all fields share one block layout along time",
]
REAL, STUB = lm.REAL, lm.STUB
SELECTIVE = ("steric", "rho", "annual_average")


def runs(tier):
    return {"quick": 3200, "thorough": 50000}[tier]


def gen(r, tier):
    pool = [o for o in by_group("steric", "derived", "average", "trend", "seasonal", "gauge") if o.lazy]
    if r.random() < 0.4:
        o = OPS[r.choice(SELECTIVE)]
    else:
        g = r.choice(sorted({o.group for o in pool}))
        o = r.choice([x for x in pool if x.group == g])
    p = o.params(r)
    if p.get("ref") == "saved":
        p["ref"] = None
    specs = inputs.draw_specs(o, p, r)
    if o.name in SELECTIVE and r.random() < 0.7:
        for s in specs.values():
            if "nt" in s and not p.get("annual"):
                s["nt"] = r.choice([4, 6, 12])
            if "years" in s:
                s["years"] = r.choice([2, 3, 4])
    layouts = {}
    for k, s in specs.items():
        ds = world.build(s)
        tv = [v for v in ds.variables if "time" in ds.variables[v].dims and ds.variables[v].dtype.kind == "f"]
        lay = sample_layout(ds, r, zmin=o.zmin, force_blocks=tv, lazy_share=0.1, eager_share=0.1)
        # one layout along time for all
        cuts = next((l["time"] for l in lay.values() if isinstance(l, dict) and "time" in l), None)
        if len(cuts or []) == 1 and r.random() < 0.7 and cuts[0] > 1:
            n = cuts[0]
            b = r.randint(1, n - 1)
            cuts = [b, n - b]
        for l in lay.values():
            if isinstance(l, dict) and "time" in l:
                l["time"] = list(cuts)
        layouts[k] = lay
    return {
        "op": o.name,
        "p": p,
        "specs": specs,
        "layouts": layouts,
        "cluster": cl.sample_config(r, modes=("atomic",)),
        "evaluate": "whole",
        "one": r.randrange(1 << 16) if o.name in SELECTIVE and r.random() < 0.8 else None,
        "knobs": {"bottleneck": True, "sw": 0.1},
    }


def time_varying(ds):
    return {v for v in ds.variables if "time" in ds.variables[v].dims and dask.is_dask_collection(ds.variables[v].data)}


def run(plan, d, ctx):
    o = OPS[plan["op"]]
    exp = lm.baseline(plan, ctx.scratch)
    lm.setup_knobs(plan)
    store = Store()
    I = inputs.build(o, plan["specs"], plan["layouts"], store, ctx.scratch)
    tv = set()
    for k, ds in I.items():
        if hasattr(ds, "variables"):
            tv |= time_varying(ds)
    ctx.probe(f"op {o.name}")
    ctx.nontrivial = exp[0] == "ok" and bool(tv)
    c = cl.Cluster(plan["cluster"], d)
    bad = []
    with c.config():
        store.down = set(tv)
        store.phase = "build"
        try:
            res = o.call(I, plan["p"])
            err = None
        except Exception as e:
            res, err = None, e
        early = sorted({n for ph, n, _ in store.log if n in tv})
        store.down = set()
        ctx.fault("storage down while building", 1)
        if exp[0] == "ok" and err is not None:
            bad.append(f"{o.name} built from unavailable storage: {type(err).__name__}: {str(err)[:200]} (reads attempted: {early})")
        elif early:
            bad.append(f"{o.name} read data while building: {early}")
        if err is None and exp[0] == "ok" and not bad:
            store.phase = "evaluate"
            if plan["one"] is not None:
                bad += one_step(plan, o, res, exp, store, ctx, I)
            else:
                got = compare.outcome(lambda: lm.evaluate(res, "whole"))
                single = any(s.get("fdtype") == "f4" for s in plan["specs"].values())
                diff = compare.outcome_diff(exp, got, tol=o.tol(plan["specs"]), dtypes=not single)
                bad += [f"{o.name} after storage came back: {x}" for x in diff[:3]]
    ctx.cluster(c)
    ctx.probe("storage reads", store.reads)
    ctx.key = hashlib.sha256(f"{plan['op']}{plan['p']}{plan['specs']}{plan['layouts']}{plan['one']}{d.digest()}".encode()).hexdigest()[:20]
    ctx.info = {"layout": {k: describe_layout(v) for k, v in plan["layouts"].items()}, "reads": store.reads, "one_step": plan["one"]}
    return bad


def one_step(plan, o, res, exp, store, ctx, I):
    """Evaluate one step (or year) and look at which blocks were read."""
    kind = o.kinds[0]
    p = plan["p"]
    ds = res[0] if isinstance(res, tuple) else res
    tname = "t" if p.get("names") or p.get("tname") == "t" else "time"
    if o.name == "annual_average":
        tname = "time"
    arrs = [ds] if not hasattr(ds, "data_vars") else [ds[v] for v in ds.data_vars]
    arrs = [a for a in arrs if tname in a.dims]
    if not arrs:
        return []
    a = arrs[plan["one"] % len(arrs)]
    n = a.sizes[tname]
    k = (plan["one"] // 7) % n
    store.log.clear()
    piece = a.isel({tname: k})
    try:
        val = piece.compute()
    except Exception as e:
        return [f"{o.name} one step of the deferred result: {type(e).__name__}: {str(e)[:200]}"]
    ctx.probe("single steps evaluated")
    src_n = I[kind].sizes["time"]
    annual = o.name == "annual_average" or p.get("annual")
    steps = set(range(12 * k, 12 * k + 12)) if annual else {k}
    ref = set()
    if o.name == "steric":
        ref = {(p["ref_index"] if p["ref"] else 0) % src_n}
    bad = []
    for ph, name, idx in store.log:
        var = I[kind].variables.get(name)
        if var is None or "time" not in var.dims:
            continue
        lo, hi = idx[var.dims.index("time")]
        # the caller of the simulated call hands the surface pressure at time 0 over as patm
        if name == "pso" and lo == 0:
            continue
        if not any(lo <= s < hi for s in steps | ref):
            bad.append(f"{o.name} one step reads too much: step {k} read times {lo}..{hi - 1} of {name}")
    if o.name == "steric" and p["variant"] != "steric":
        fixed = "so" if p["variant"] == "thermosteric" else "thetao"
        for ph, name, idx in store.log:
            if name == fixed:
                lo, hi = idx[0]
                if not any(lo <= s < hi for s in ref):
                    bad.append(f"{o.name} one step reads too much: held-fixed {name} read at times {lo}..{hi - 1}")
    # and it is right
    want = _find(exp[1], a.name, isinstance(res, tuple))
    if want is not None and not bad:
        ax = want["dims"].index(tname)
        out = []
        compare._cmp_values(str(a.name), np.take(want["values"], k, axis=ax), val.values, o.tol(plan["specs"]) if "f4" not in str(plan["specs"]) else (1e-4, 1e-4), out)
        bad += [f"{o.name} one step is wrong: {x}" for x in out]
    return bad[:3]


def _find(snap, name, tup):
    if snap["kind"] == "seq":
        snap = snap["items"][0]
    if snap["kind"] == "DataArray":
        return snap["var"]
    if snap["kind"] == "Dataset":
        return dict(snap["data_vars"]).get(name)
    return None


simplify = lm.simplify
