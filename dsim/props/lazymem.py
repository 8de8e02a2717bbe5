"""Shared machinery of C01-C06: a routine on a simulated faulty cluster gives
what it gives on the same data held in memory."""

import dask
import xarray as xr

from .. import cluster as cl
from .. import compare, inputs, proc, threads
from ..ops import OPS, by_group
from ..store import Store, describe_layout

REAL = [
    "every momlevel routine called",
    "xarray, numpy, pandas, xgcm",
    "dask array graph construction and optimisation",
    "the work of every task",
]
STUB = [
    "dask scheduler and workers (simulated: virtual time, placement, memory, loss)",
    "network between workers (serialisation is real, delivery is simulated)",
    "storage holding the input blocks (simulated arrays)",
]
ASSUMPTIONS = [
    "results may differ from the in-memory call by rounding only: 1e-9 of the largest value of the variable plus a per-routine absolute allowance",
    "tasks are atomic except in runs of mode 'threads', where tasks of one scheduling round are switched at source lines of the package",
]


def setup_knobs(plan):
    xr.set_options(use_bottleneck=plan["knobs"]["bottleneck"])


def gen_plan(r, groups, tier, pick=None, **layout_kw):
    pool = by_group(*groups)
    w = [o.weight for o in pool]
    o = pick(r) if pick else r.choices(pool, w)[0]
    p = o.params(r)
    specs = inputs.draw_specs(o, p, r)
    layouts = inputs.draw_layouts(o, specs, r, **layout_kw)
    return {
        "op": o.name,
        "p": p,
        "specs": specs,
        "layouts": layouts,
        "cluster": cl.sample_config(r, modes=("atomic", "atomic", "atomic", "threads", "threads", "procs")),
        "evaluate": r.choice(["whole", "whole", "whole", "pieces", "persist", "twice"]),
        "knobs": {"bottleneck": r.random() < 0.8, "sw": r.choice([0.05, 0.2, 0.5])},
    }


def baseline(plan, scratch, specs=None):
    """Outcome of the call on in-memory inputs, in a pristine process."""

    def run():
        o = OPS[plan["op"]]
        setup_knobs(plan)
        with dask.config.set(scheduler="sync"):
            I = inputs.build(o, specs or plan["specs"], scratch=scratch)
            return compare.outcome(lambda: o.call(I, plan["p"]), compute=lambda x: compare.to_plain(x, lambda y: y.compute()))

    st, out = proc.call_in_fork(run)
    if st != "ok":
        raise RuntimeError("baseline process failed: " + out)
    return out


def evaluate(obj, how):
    if how == "pieces":
        def one(x):
            if isinstance(x, xr.Dataset):
                y = x.copy()
                for v in list(x.variables):
                    if v not in x.indexes:
                        y[v].variable.values = x[v].compute().values if False else x[v].variable.compute().values
                return y
            d = next((d for d in x.dims if x.sizes[d] > 1), None)
            if d is None:
                return x.compute()
            n = x.sizes[d] // 2
            enc = dict(x.encoding)
            a, b = x.isel({d: slice(0, n)}).compute(), x.isel({d: slice(n, None)}).compute()
            y = x.copy()
            import numpy as np

            y = y.copy(data=np.concatenate([a.values, b.values], axis=x.dims.index(d)))
            y.encoding = enc
            return y.compute()

        return compare.to_plain(obj, one)
    if how == "persist":
        return compare.to_plain(compare.to_plain(obj, lambda x: x.persist()), lambda x: x.compute())
    if how == "twice":
        compare.to_plain(obj, lambda x: x.compute())
    return compare.to_plain(obj, lambda x: x.compute())


def on_cluster(plan, d, ctx, I, o, procs=None):
    sink = {}
    c = cl.Cluster(plan["cluster"], d, runner=threads.make_runner(plan["knobs"]["sw"], sink=sink), procs=procs)
    with c.config():
        got = compare.outcome(lambda: o.call(I, plan["p"]), compute=lambda x: evaluate(x, plan["evaluate"]))
    if procs is not None:
        ctx.probe("tasks run in other processes", c.stats["tasks"])
        ctx.fault("worker process killed", procs.kills)
    ctx.cluster(c)
    ctx.probe("preemption points passed", sink.get("points", 0))
    ctx.probe("forced thread switches", sink.get("switches", 0))
    return got, c


def run_plan(plan, d, ctx):
    if plan["cluster"]["mode"] != "procs":
        return _run_plan(plan, d, ctx)
    # workers are forked before the package is first used in this process
    procs = proc.WorkerProcs(plan["cluster"]["workers"], 2, setup=lambda: setup_knobs(plan))
    try:
        return _run_plan(plan, d, ctx, procs)
    finally:
        procs.close()


def _run_plan(plan, d, ctx, procs=None):
    o = OPS[plan["op"]]
    exp = baseline(plan, ctx.scratch)
    setup_knobs(plan)
    store = Store()
    I = inputs.build(o, plan["specs"], plan["layouts"], store, ctx.scratch)
    got, c = on_cluster(plan, d, ctx, I, o, procs)
    ctx.key = f"{plan['op']}|{sorted(plan['p'].items(), key=str)}|{plan['specs']}|{plan['layouts']}|{d.digest()}"
    import hashlib

    ctx.key = hashlib.sha256(ctx.key.encode()).hexdigest()[:20]
    ctx.nontrivial = exp[0] == "ok" and c.stats["tasks"] + store.reads > 0
    ctx.probe(f"op {o.name}")
    if exp[0] == "err":
        ctx.probe("refused in memory too")
    ctx.info = {
        "layout": {k: describe_layout(v) for k, v in plan["layouts"].items()},
        "tasks": c.stats["tasks"],
        "events": c.stats["events"],
        "virtual_s": round(c.stats["virtual_s"], 3),
        "outcome": compare.brief(exp),
    }
    # which precision reductions of single-precision input come back in is xarray's
    # business and differs between its own in-memory and block code paths
    single = any(s.get("fdtype") == "f4" for s in plan["specs"].values())
    dtypes = not (single and o.group in ("average", "trend", "seasonal"))
    bad = compare.outcome_diff(exp, got, tol=o.tol(plan["specs"]), dtypes=dtypes)
    return [f"{o.name} differs from memory: {b}" for b in bad[:3]], exp, got


def simplify(plan):
    for c in inputs.simplify_cluster(plan["cluster"]):
        yield {**plan, "cluster": c}
    if plan["evaluate"] != "whole":
        yield {**plan, "evaluate": "whole"}
    for l in inputs.simplify_layouts(plan["layouts"]):
        yield {**plan, "layouts": l}
    for s in inputs.simplify_specs(plan["specs"]):
        yield {**plan, "specs": s}
    for k, v in plan["p"].items():
        if v is True:
            yield {**plan, "p": {**plan["p"], k: False}}


def local_point(plan, r, ctx, full, op):
    """The result at one grid point is the one of that point's series alone."""
    kind = op.kinds[0]
    spec = plan["specs"][kind]
    iy, ix = r.randrange(spec["ny"]), r.randrange(spec["nx"])

    def run():
        setup_knobs(plan)
        with dask.config.set(scheduler="sync"):
            I = inputs.build(op, plan["specs"], scratch=ctx.scratch)
            sub = I[kind].isel(lat=[iy], lon=[ix])
            out = compare.outcome(lambda: op.call({kind: sub}, plan["p"]), compute=lambda x: compare.to_plain(x, lambda y: y.compute()))
            return out

    st, alone = proc.call_in_fork(run)
    if st != "ok":
        raise RuntimeError("point process failed: " + alone)
    return alone, iy, ix


def _walk(snap):
    """(label, var) for every data variable of a snapshot."""
    if snap["kind"] == "DataArray":
        yield ("array", snap["var"])
    elif snap["kind"] == "Dataset":
        for k, v in snap["data_vars"]:
            yield (k, v)
    elif snap["kind"] == "seq":
        for i, x in enumerate(snap["items"]):
            for k, v in _walk(x):
                yield (f"[{i}]{k}", v)


def compare_point(full, alone, iy, ix, tol):
    import numpy as np

    if full[0] != "ok":
        return []
    if alone[0] != "ok":
        return [f"the point alone gives {compare.brief(alone)}"]
    bad = []
    a = dict(_walk(alone[1]))
    for k, v in _walk(full[1]):
        if k not in a:
            bad.append(f"{k} missing for the point alone")
            continue
        x, y = v, a[k]
        idx = tuple(slice(iy, iy + 1) if dn == "lat" else slice(ix, ix + 1) if dn == "lon" else slice(None) for dn in x["dims"])
        out = []
        compare._cmp_values(k, np.asarray(x["values"])[idx], y["values"], tol, out)
        bad += out
    return bad
