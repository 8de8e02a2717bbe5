"""Histories and interleavings of the synthetic-data generators."""

import hashlib
import io
import os
import random
import subprocess
import sys

import numpy as np
import xarray as xr

from .. import calls, compare, ops, proc, seams, threads
from ..ops import OPS, by_group
from . import c12
from .c11 import scribble

ID = "C13"
RULE = (
    "A run draws three to eight generator calls (many with equal or nearly equal arguments) and a history: calls one after another or in "
    "interleaved threads, global random generators reseeded and drawn from in between, returned datasets overwritten, extended or kept; some runs "
    "also start an interpreter with another hash seed.  Non-trivial: more than one call.  Distinct: calls, history and schedule."
)
ASSUMPTIONS = ["threads are switched at lines of the package's source"]
REAL = ["momlevel.test_data", "xarray", "numpy", "cftime", "Python threads"]
STUB = ["thread scheduler", "clock, entropy"]
RANDOM = {
    "gen_ocean": ["thetao", "so", "volcello", "deptho", "areacello"],
    "gen_uv": ["uo", "vo", "Coriolis", "areacello_bu"],
    "gen_dz": ["deptho"],
    "gen_time": ["var_a", "var_b"],
    "gen_z": ["deptho", "areacello"],
    "gen_xy": None,
}
FUNC = {
    "gen_ocean": "generate_test_data",
    "gen_uv": "generate_test_data_uv",
    "gen_dz": "generate_test_data_dz",
    "gen_time": "generate_test_data_time",
    "gen_z": "zlevel_fields",
    "gen_xy": "xy_fields",
}
AREA = {"h": "areacello", "u": "areacello_cu", "v": "areacello_cv", "c": "areacello_bu"}


def runs(tier):
    return {"quick": 2000, "thorough": 40000}[tier]


def gen(r, tier):
    cs = []
    for _ in range(r.randint(2, 6)):
        if cs and r.random() < 0.7:
            o = OPS[r.choice(cs)["op"]]
            q = dict(r.choice([c for c in cs if c["op"] == o.name])["p"])
            fresh = o.params(r)
            for f in r.sample(sorted(q), r.choice([0, 1, 1, 2]) if len(q) > 1 else 1):
                q[f] = fresh[f]
            if "seed" in q and r.random() < 0.3:
                q["seed"] = r.randrange(1, 2000)
            cs.append({"op": o.name, "p": q, "specs": {}})
        else:
            cs.append(calls.draw(r, ("synthetic",)))
    steps = []
    for i in range(len(cs)):
        steps.append({"do": "call", "call": i})
        for _ in range(r.choice([0, 1, 2])):
            steps.append({"do": r.choice(["rng", "scribble", "scribble", "append", "repeat", "threads", "clock"]), "call": r.randrange(i + 1), "n": r.randrange(1, 1 << 20)})
    return {"calls": cs, "steps": steps, "interpreter": r.random() < 0.015, "rate": r.choice([0.03, 0.1, 0.3]), "opcodes": r.random() < 0.2}


def run(plan, d, ctx):
    cs = plan["calls"]
    want = calls.expected(cs, ctx.scratch)
    bad, kept = [], []
    ncall = 0

    def check(c, got, how):
        return [f"{c['op']} {how}: {x}" for x in compare.outcome_diff(want[calls.key(c)], got, tol=None, text=True)[:2]]

    def rngs():
        s = seams.global_state()
        return {k: s[k] for k in ("numpy.random state", "random state")}

    def generate(c, how):
        nonlocal ncall
        ncall += 1
        g0 = rngs()
        box = {}

        def f():
            box["r"] = OPS[c["op"]].call({}, c["p"])
            return box["r"]

        got = compare.outcome(f)
        out = check(c, got, how)
        out += [f"{c['op']} disturbed a global generator: {x}" for x in seams.diff_state(g0, rngs())]
        if got[0] == "ok":
            kept.append((c["op"], box["r"], compare.snapshot(box["r"], enc=True)))
        return out

    def still():
        out = []
        for name, r, s in kept:
            out += [f"a dataset of {name} changed after it was returned: {x}" for x in compare.input_diff(s, compare.snapshot(r, enc=True))[:1]]
        return out

    for st in plan["steps"]:
        c = cs[st["call"] % len(cs)]
        if st["do"] in ("call", "repeat"):
            bad += generate(c, "in a history")
        elif st["do"] == "rng":
            random.seed(st["n"])
            np.random.seed(st["n"])
            np.random.rand(st["n"] % 4)
            random.random()
            ctx.fault("global generators reseeded")
        elif st["do"] == "clock":
            seams.CLOCK.advance(st["n"] * 11.0)
            ctx.fault("clock jump")
        elif st["do"] == "scribble" and kept:
            name, r, _ = kept.pop(st["n"] % len(kept))
            scribble(r)
            _deep(r)
            bad += still()
            ctx.fault("returned dataset overwritten")
            bad += generate(c, "after a dataset was overwritten")
        elif st["do"] == "append":
            # appending grid fields to a dataset of the caller's
            p = {"point": "huvc"[st["n"] % 4], "seed": 1 + st["n"] % 5}
            base = xr.Dataset({"mine": (("m",), np.arange(3.0))}, attrs={"a": 1})
            if st["n"] % 3 == 0:
                out = ops.td._mod.tripolar.zlevel_fields(base, seed=p["seed"])
                fresh = ops.td._mod.tripolar.zlevel_fields(seed=p["seed"])
            else:
                out = ops.td._mod.tripolar.xy_fields(base, point=p["point"], seed=p["seed"])
                fresh = ops.td._mod.tripolar.xy_fields(point=p["point"], seed=p["seed"])
            for v in fresh.variables:
                if v not in out.variables or not fresh[v].identical(out[v].drop_vars([x for x in out[v].coords if x not in fresh[v].coords])):
                    bad.append(f"grid fields appended to a dataset differ: {v}")
            if "mine" not in out or not np.array_equal(out["mine"].values, np.arange(3.0)):
                bad.append("grid fields appended to a dataset lost what it held: mine")
            out["mine"][...] = 7.0
        elif st["do"] == "threads":
            pick = [cs[(st["call"] + j) % len(cs)] for j in range(2 + st["n"] % 2)]
            g0 = rngs()
            stdout, sys.stdout = sys.stdout, io.StringIO()
            try:
                il = threads.Interleaver([(lambda c=c: compare.outcome(lambda: OPS[c["op"]].call({}, c["p"]))) for c in pick], d, "th", plan["rate"], plan["opcodes"])
                outs = il.run()
            finally:
                sys.stdout = stdout
            ncall += len(pick)
            for c2, (v, e) in zip(pick, outs):
                bad += [f"{c2['op']} in a thread: {type(e).__name__}: {e}"] if e is not None else check(c2, v, "in interleaved threads")
            bad += [f"interleaved generators disturbed a global generator: {x}" for x in seams.diff_state(g0, rngs())]
            ctx.fault("thread preempted", max(0, il.switches - len(pick)))
        if bad:
            break
    if not bad:
        bad += still()
        bad += seeds_differ(cs, want)
    if plan["interpreter"] and not bad:
        bad += interpreter(plan, d, ctx, want)
    ctx.nontrivial = ncall > 1
    ctx.probe("generator calls", ncall)
    for c in cs:
        ctx.probe(f"op {c['op']}")
    ctx.key = hashlib.sha256(f"{cs}{plan['steps']}{d.digest()}".encode()).hexdigest()[:20]
    ctx.info = {"steps": [s["do"] for s in plan["steps"]], "ops": [c["op"] for c in cs]}
    return bad


def _deep(r):
    """Overwrite coordinates and attributes too."""
    if isinstance(r, xr.Dataset):
        for v in list(r.variables):
            a = r.variables[v]._data
            if isinstance(a, np.ndarray) and a.flags.writeable:
                if a.dtype.kind == "f":
                    a[...] = -1.0
                elif a.dtype.kind == "O" and a.size:
                    a[...] = a.reshape(-1)[0]
            r.variables[v].attrs.clear()
            r.variables[v].encoding["dtype"] = "int8"
        r["junk"] = 1
        for v in list(r.data_vars)[:2]:
            del r[v]


def seeds_differ(cs, want):
    out = []
    for i, a in enumerate(cs):
        for b in cs[:i]:
            if a["op"] != b["op"] or a["op"] not in RANDOM:
                continue
            if a["p"]["seed"] == b["p"]["seed"] or {**a["p"], "seed": 0} != {**b["p"], "seed": 0}:
                continue
            x, y = want[calls.key(a)], want[calls.key(b)]
            if x[0] != "ok" or y[0] != "ok":
                continue
            dx, dy = ({**dict(s["data_vars"]), **dict(s["coords"])} for s in (x[1], y[1]))
            names = RANDOM[a["op"]] or [AREA[a["p"]["point"]]]
            if a["op"] == "gen_z" and not a["p"]["deptho"]:
                names = []
            for v in names:
                if v in dx and v in dy and np.array_equal(dx[v]["values"], dy[v]["values"]):
                    out.append(f"{FUNC[a['op']]}() gives the same random field for different seeds: {v} (seeds {a['p']['seed']}, {b['p']['seed']})")
    return out


def interpreter(plan, d, ctx, want):
    import json
    import pickle

    h = d.choose("hash", 2**32 - 1)
    work = os.path.join(ctx.scratch, "work")
    os.mkdir(work)
    path = os.path.join(work, "job.json")
    job = {"calls": [{**c, "blocks": None} for c in plan["calls"]], "ambient": 1 + h % 1000}
    with open(path, "w") as f:
        json.dump({"plan": job, "scratch": work}, f)
    env = {**os.environ, "PYTHONHASHSEED": str(h), "DSIM_SCRATCH": ctx.scratch}
    p = subprocess.run([sys.executable, "-m", "dsim", "batch", path], env=env, cwd=work, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError(p.stderr[-3000:])
    with open(path + ".out", "rb") as f:
        got = pickle.load(f)
    ctx.fault("new interpreter with another hash seed")
    out = []
    for c, (o, _, _) in zip(plan["calls"], got):
        out += [f"{c['op']} in another interpreter: {x}" for x in compare.outcome_diff(want[calls.key(c)], o, tol=None, text=True)[:1]]
    return out


def simplify(plan):
    st = plan["steps"]
    for i in range(len(st)):
        if len(st) > 1:
            yield {**plan, "steps": st[:i] + st[i + 1 :]}
    if plan["interpreter"]:
        yield {**plan, "interpreter": False}
    cs = plan["calls"]
    for i in range(len(cs)):
        if len(cs) > 1:
            yield {**plan, "calls": cs[:i] + cs[i + 1 :]}
