"""Several threads in the package at the same time."""

import hashlib
import io
import os
import sys

import dask

from .. import calls, compare, inputs, ops, threads
from ..ops import OPS
from ..store import Store

ID = "C10"
RULE = (
    "A run draws two to four threads with one or two calls each, mostly look-alikes of one another, on shared or separate inputs (in memory or in "
    "blocks).  The threads are real, one runs at a time, and the seed decides at every source line (or bytecode instruction) of the package "
    "whether another one goes on; in some runs the same calls are then made again several times, each thread giving way once at a place drawn from "
    "all the places it passed, preferably one where something shared between threads had just changed.  Non-trivial: at least one hand-over inside a call.  Distinct: calls and the sequence of hand-overs."
)
ASSUMPTIONS = [
    "threads are switched at lines or instructions of the package's source (including its functions run inside deferred tasks), not inside libraries",
    "locks made by the package are simulated, so that waiting is a scheduling decision",
    "text printed to the shared standard output is not part of a call's result",
]
REAL = ["momlevel", "xarray", "numpy", "pandas", "scikit-learn", "Python threads", "dask tasks (synchronous scheduler)"]
STUB = ["thread scheduler", "locks created by the package", "clock, entropy"]
EXCLUDE = ("validate", "steric_reject")


def runs(tier):
    return {"quick": 850, "thorough": 30000}[tier]


def gen(r, tier):
    n = r.choice([2, 2, 2, 3, 4])
    per = [r.choice([1, 1, 2]) for _ in range(n)]
    groups = calls.ALL if r.random() < 0.5 else (r.choice(calls.ALL),)
    if r.random() < 0.6:
        cs = calls.kin(r, sum(per), groups=calls.FED + ("misc",), exclude=EXCLUDE, options=r.choice([0.2, 0.6]))
        if r.random() < 0.4:  # all on one object
            cs = [{**c, "specs": cs[0]["specs"]} for c in cs]
    else:
        cs = calls.family(r, sum(per), groups=groups, exclude=EXCLUDE)
    th, k = [], 0
    for m in per:
        th.append(cs[k : k + m])
        k += m
    return {
        "threads": th,
        "shared": r.random() < 0.7,
        "blocks": r.randrange(1 << 20) if r.random() < 0.3 else None,
        "relative": r.random() < 0.3,
        "rate": r.choice([0.01, 0.03, 0.1, 0.3]),
        "opcodes": r.random() < 0.2,
        "again": r.choice([1, 2, 4]),
    }


def run(plan, d, ctx):
    import random

    flat = [c for t in plan["threads"] for c in t]
    exp = calls.expected(flat, ctx.scratch)
    objs = {}

    def inputs_of(c, tag):
        o = OPS[c["op"]]
        lay = store = None
        if plan["blocks"] is not None and c["specs"]:
            lay = inputs.draw_layouts(o, c["specs"], random.Random(plan["blocks"]))
            store = Store()
        I = inputs.build(o, c["specs"], lay, store, ctx.scratch, tag)
        for k in c["specs"]:
            key = calls.key(c["specs"][k])
            if plan["shared"]:
                I[k] = objs.setdefault(key, I[k])
            else:
                objs[f"{key}{tag}"] = I[k]
        if plan["relative"] and "csv" in I:
            I["csv"] = os.path.relpath(I["csv"])
        return I

    Is = [[inputs_of(c, f"-{i}-{j}") for j, c in enumerate(t)] for i, t in enumerate(plan["threads"])]
    snaps = calls.snap_inputs(objs)
    ops.SHARED = {} if plan["shared"] else None
    ops.quiet = ops.contextlib.nullcontext
    out0, sys.stdout = sys.stdout, io.StringIO()

    def body(i):
        return lambda: [calls.do(c, I) for c, I in zip(plan["threads"][i], Is[i])]

    try:
        with dask.config.set(scheduler="sync"):
            n = len(plan["threads"])
            outs, points, switches, trail = [], 0, 0, []
            il = None
            watch = None
            if plan.get("again", 0) > 0 and not plan["opcodes"]:
                watch = ([x for x in objs.values() if hasattr(x, "_variables")], ops.SHARED if ops.SHARED is not None else {})
            for k in range(1 + plan.get("again", 0)):
                aims = None
                if k:
                    # give way once at a chosen place: every place of the package passed so far is equally likely
                    aims = {}
                    first = d.choose("aim.first", n)
                    for i in range(n):
                        if i == first or d.choose("aim.also", 2):
                            places = sorted(hot[i]) if hot[i] and d.choose("aim.hot", 3) else sorted(seen[i])
                            j = d.choose("aim.place", len(places) + 1)
                            if j:
                                aims[i] = (places[j - 1], d.choose("aim.nth", min(3, seen[i][places[j - 1]])))
                il = threads.Interleaver([body(i) for i in range(n)], d, "th" if not k else f"th{k}", plan["rate"], plan["opcodes"], aims=aims, watch=watch)
                outs += list(enumerate(il.run()))
                points, switches, trail = points + il.points, switches + il.switches - (n if k else 0), trail + il.trail
                if not k:
                    seen, hot = il.places, il.hot
                    ctx.probe("places where something shared changed", sum(map(len, hot)))
    finally:
        sys.stdout = out0
    il.points, il.switches, il.trail = points, switches, trail
    bad = []
    for i, (v, e) in outs:
        if e is not None:
            bad.append(f"thread did not come back: {type(e).__name__}: {str(e)[:200]}")
            continue
        for c, got in zip(plan["threads"][i], v):
            want = exp[calls.key(c)]
            # blocks and memory agree to rounding (C01-C06); in memory the bits must agree
            tol = None if plan["blocks"] is None else OPS[c["op"]].tol(c["specs"])
            if plan["blocks"] is not None and want[0] == got[0] == "err":
                continue  # refused in memory as in blocks; the reasons may differ
            diff = compare.outcome_diff(want, got, tol=tol, dtypes=plan["blocks"] is None)
            bad += [f"{c['op']} next to other threads: {x}" for x in diff[:2]]
    bad += [f"shared inputs changed: {x}" for x in calls.diff_inputs(snaps, calls.snap_inputs(objs))[:3]]
    bad += [f"shared inputs changed: array {name} is now called {a.name}" for (_, name), (_, a) in (ops.SHARED or {}).items() if a.name != name]
    ops.SHARED = None
    ctx.nontrivial = il.switches > len(plan["threads"])
    ctx.probe("preemption points passed", il.points)
    ctx.probe("hand-overs", il.switches)
    ctx.fault("thread preempted", max(0, il.switches - len(plan["threads"])))
    for c in flat:
        ctx.probe(f"op {c['op']}")
    ctx.key = hashlib.sha256(f"{plan['threads']}{il.trail}{d.digest()}".encode()).hexdigest()[:20]
    ctx.info = {"ops": [[c["op"] for c in t] for t in plan["threads"]], "hand_overs": il.switches, "points": il.points}
    return bad


def simplify(plan):
    th = plan["threads"]
    for i in range(len(th)):
        if len(th) > 2:
            yield {**plan, "threads": th[:i] + th[i + 1 :]}
        for j in range(len(th[i])):
            if len(th[i]) > 1:
                yield {**plan, "threads": th[:i] + [th[i][:j] + th[i][j + 1 :]] + th[i + 1 :]}
    for k, v in (("again", 0), ("blocks", None), ("relative", False), ("opcodes", False), ("shared", True)):
        if plan.get(k, v) != v:
            yield {**plan, k: v}
    if plan.get("again", 0) > 1:
        yield {**plan, "again": plan["again"] - 1}
    flat = [c for t in th for c in t]
    for f in calls.simplify_calls(flat, least=len(flat)):
        out, k = [], 0
        for t in th:
            out.append(f[k : k + len(t)])
            k += len(t)
        yield {**plan, "threads": out}
