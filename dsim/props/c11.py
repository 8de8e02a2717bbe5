"""Histories of calls in one process."""

import gc
import hashlib
import os
import random

import dask
import numpy as np
import xarray as xr

from .. import calls, compare, inputs, ops, proc, seams
from ..ops import OPS
from ..store import Store

ID = "C11"
RULE = (
    "A run is a history of 3 to 12 steps in one process: calls that mostly resemble one another (same shapes, names, dates or file path, other "
    "content or options), and in between random numbers drawn, clock jumps, directory changes, inputs edited in place, inputs freed and rebuilt, "
    "results scribbled over.  Every call is compared with the same call made first in a fresh process, on another day, with another environment and processor count.  Non-trivial: at least two calls.  "
    "Distinct: the sequence of steps."
)
ASSUMPTIONS = [
    "after the caller edits an input or a result, earlier results that may share its memory are no longer compared",
]
REAL = ["momlevel", "xarray", "numpy", "pandas", "scikit-learn", "dask tasks (synchronous scheduler)"]
STUB = ["clock, entropy"]
BETWEEN = ["rng", "gc", "clock", "chdir", "edit", "edit", "rebuild", "rebuild", "scribble", "edit_meta"]


def runs(tier):
    return {"quick": 1900, "thorough": 40000}[tier]


def gen(r, tier):
    if r.random() < 0.45:
        # one routine on several inputs that differ in one respect each, then the first again
        cs = calls.kin(r, r.choice([3, 4, 4]), groups=calls.FED + ("misc", "misc"), small=r.random() < 0.7, options=r.choice([0.15, 0.5]))
        order = list(range(len(cs)))
        r.shuffle(order)
        steps = [{"do": "call", "call": i} for i in order] + [{"do": "call", "call": order[0]}]
        if r.random() < 0.5:
            steps.insert(r.randrange(1, len(steps)), {"do": r.choice(["rebuild", "gc"]), "call": 0, "n": r.randrange(1, 1 << 20)})
        return {"calls": cs, "steps": steps, "blocks": None, "relative": False, "elsewhere": r.randrange(1, 1 << 20)}
    groups = calls.ALL if r.random() < 0.4 else (r.choice(calls.ALL),)
    cs = calls.family(r, r.choice([1, 2, 2, 3, 4]), groups=groups)
    steps = []
    for _ in range(r.randint(2, 7)):
        steps.append({"do": "call", "call": r.randrange(len(cs))})
        for _ in range(r.choice([0, 1, 1, 2])):
            steps.append({"do": r.choice(BETWEEN), "call": r.randrange(len(cs)), "n": r.randrange(1, 1 << 20)})
    steps.append({"do": "call", "call": r.randrange(len(cs))})
    return {"calls": cs, "steps": steps, "blocks": r.randrange(1 << 20) if r.random() < 0.2 else None, "relative": r.random() < 0.3, "elsewhere": r.randrange(1, 1 << 20)}


def edit(ds, n, meta):
    """The caller changes something in an input of theirs, in place."""
    r = random.Random(n)
    names = sorted(str(v) for v in ds.data_vars)
    names = [v for v in names if ds[v].dtype.kind == "f"] or names
    if not names:
        ds.attrs["edited"] = n
        return
    v = r.choice(names)
    if meta:
        ds[v].attrs["long_name"] = f"renamed {n}"
        ds.attrs["edited"] = n
        return
    a = ds[v].variable._data
    if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == "f":
        if r.random() < 0.5:
            a *= 1.0 + (n % 50 + 1) / 1000.0
        else:
            flat = a.reshape(-1)
            flat[: max(1, flat.size // 2)] += (n % 7 + 1) * 0.05
    else:
        ds[v] = ds[v] * (1.0 + (n % 50 + 1) / 1000.0)


def skey(spec):
    return calls.key(spec)


def make(plan, specs_o, spec):
    """One input object."""
    lay = store = None
    ds = None
    o = OPS[specs_o]
    if plan["blocks"] is not None:
        lay = inputs.draw_layouts(o, {"x": spec}, random.Random(plan["blocks"]))
        store = Store()
    from .. import world
    from ..store import apply_layout

    ds = world.build(spec)
    if lay is not None:
        ds = apply_layout(ds, lay["x"], store)
    return ds


def gather(plan, c, objs, edits, scratch, sub=""):
    o = OPS[c["op"]]
    I = {}
    for k, s in c["specs"].items():
        key = skey(s) + (c["op"] if plan["blocks"] is not None else "")
        if key not in objs:
            objs[key] = make(plan, c["op"], s)
            for n, meta in edits.get(key, ()):
                edit(objs[key], n, meta)
        I[k] = objs[key]
    if "csv" in o.kinds:
        from .. import world

        # one path for all station lists: content changes from call to call
        path = os.path.join(scratch, sub, "stations.csv")
        with open(path, "w") as f:
            f.write(world.stations(c["specs"]["gauge"]))
        I["csv"] = os.path.relpath(path) if plan["relative"] else path
    return I


def okeys(plan, c):
    return [skey(s) + (c["op"] if plan["blocks"] is not None else "") for s in c["specs"].values()]


def run(plan, d, ctx):
    cs = plan["calls"]
    # which call meets which edits
    edits, want = {}, {}
    todo = []
    for st in plan["steps"]:
        c = cs[st["call"] % len(cs)]
        if st["do"] == "call":
            e = {k: tuple(edits.get(k, ())) for k in okeys(plan, c)}
            todo.append((c, e))
        elif st["do"] in ("edit", "edit_meta"):
            for k in okeys(plan, c)[:1]:
                edits.setdefault(k, []).append((st["n"], st["do"] == "edit_meta"))
        elif st["do"] == "scribble":
            pass
    sub = os.path.join(ctx.scratch, "fresh")
    os.mkdir(sub)
    for c, e in todo:
        k = calls.key(c) + repr(sorted(e.items()))
        if k in want:
            continue

        def fresh(c=c, e=e):
            seams.elsewhere(plan.get("elsewhere", 0))
            with dask.config.set(scheduler="sync"):
                return calls.do(c, gather(plan, c, {}, e, ctx.scratch, "fresh"))

        st, v = proc.call_in_fork(fresh)
        if st != "ok":
            raise RuntimeError("fresh process failed: " + v)
        want[k] = v
    # the history
    objs, kept, done, bad = {}, [], {}, []
    ncall = 0
    i = 0
    ops.ALTERED.clear()
    with dask.config.set(scheduler="sync"):
        for st in plan["steps"]:
            c = cs[st["call"] % len(cs)]
            name = c["op"]
            if st["do"] == "call":
                o = OPS[name]
                k = calls.key(c) + repr(sorted(todo[i][1].items()))
                i += 1
                I = gather(plan, c, objs, done, ctx.scratch)
                before = calls.snap_inputs({**I, **{f"other {n}": v for n, v in enumerate(objs.values())}})
                box = {}

                def call():
                    box["r"] = compare.to_plain(o.call(I, c["p"]), lambda y: y.compute())
                    return box["r"]

                got = compare.outcome(call)
                ncall += 1
                bad += [f"{name} as call {ncall} of the process: {x}" for x in compare.outcome_diff(want[k], got, tol=None, text=name != "tidegauge")[:2]]
                after = calls.snap_inputs({**I, **{f"other {n}": v for n, v in enumerate(objs.values())}})
                bad += [f"{name} altered its caller's objects: {x}" for x in calls.diff_inputs(before, after)[:2]]
                bad += [f"{name} altered its arguments: {x}" for x in ops.ALTERED[:2]]
                ops.ALTERED.clear()
                if got[0] == "ok":
                    kept.append((name, box["r"], compare.snapshot(box["r"], enc=True)))
            elif st["do"] == "rng":
                seed = st["n"]
                random.seed(seed)
                np.random.seed(seed)
                [random.random() for _ in range(seed % 5)]
                np.random.rand(seed % 3)
            elif st["do"] == "gc":
                gc.collect()
            elif st["do"] == "clock":
                seams.CLOCK.advance((st["n"] - 500000) * (37.0, 0.01, 400.0)[st["n"] % 3])
                ctx.fault("clock jump")
            elif st["do"] == "chdir":
                p = os.path.join(ctx.scratch, f"dir{st['n'] % 3}")
                os.makedirs(p, exist_ok=True)
                os.chdir(p)
            elif st["do"] in ("edit", "edit_meta"):
                bad += _still(kept)
                for k in okeys(plan, c)[:1]:
                    e = (st["n"], st["do"] == "edit_meta")
                    done.setdefault(k, []).append(e)
                    if k in objs:
                        edit(objs[k], *e)
                kept = []
            elif st["do"] == "rebuild":
                objs.clear()
                I = before = after = None
                if st["n"] % 2:
                    gc.collect()
            elif st["do"] == "scribble":
                bad += _still(kept)
                for _, r, _ in kept:
                    scribble(r)
                kept = []
                objs.clear()
            if bad:
                break
        if not bad:
            bad += _still(kept)
    ctx.nontrivial = ncall >= 2
    for c in cs:
        ctx.probe(f"op {c['op']}")
    ctx.probe("calls compared", ncall)
    for st in plan["steps"]:
        if st["do"] != "call":
            ctx.probe(f"between calls: {st['do']}")
    ctx.key = hashlib.sha256(f"{cs}{plan['steps']}{plan['blocks']}".encode()).hexdigest()[:20]
    ctx.info = {"steps": [s["do"] for s in plan["steps"]], "ops": [c["op"] for c in cs]}
    return bad


def _still(kept):
    out = []
    for name, r, snap in kept:
        out += [f"earlier result of {name} changed: {x}" for x in compare.input_diff(snap, compare.snapshot(r, enc=True))[:1]]
    return out


def scribble(r):
    """The caller writes all over a result."""
    if isinstance(r, (tuple, list)):
        for x in r:
            scribble(x)
        if isinstance(r, list) and r:
            r.append("scribble")
    elif isinstance(r, dict):
        r["scribble"] = 1
        for k in list(r):
            if isinstance(r[k], str):
                r[k] = "scribble"
    elif isinstance(r, np.ndarray):
        if r.flags.writeable and r.dtype.kind == "f":
            r[...] = -999.0
    elif isinstance(r, xr.DataArray):
        a = r.variable._data
        if isinstance(a, np.ndarray) and a.flags.writeable and a.dtype.kind == "f":
            a[...] = -999.0
        r.attrs["scribble"] = 1
        r.attrs.pop("units", None)
        for c in r.coords.values():
            c.attrs["scribble"] = 1
    elif isinstance(r, xr.Dataset):
        for v in r.data_vars:
            scribble(r[v])
        r.attrs["scribble"] = 1


def simplify(plan):
    st = plan["steps"]
    for i in range(len(st)):
        if len(st) > 1:
            yield {**plan, "steps": st[:i] + st[i + 1 :]}
    for k, v in (("blocks", None), ("relative", False), ("elsewhere", 0)):
        if plan.get(k) != v:
            yield {**plan, k: v}
    for c in calls.simplify_calls(plan["calls"], least=len(plan["calls"])):
        yield {**plan, "calls": c}
