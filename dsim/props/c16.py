"""Deferred results built together."""

import gc
import hashlib
import random

import dask
import numpy as np
import xarray as xr

from .. import calls, cluster as cl, compare, inputs, proc, seams, threads
from ..ops import OPS
from ..store import Store
from . import lazymem as lm

ID = "C16"
RULE = (
    "A run builds two to five deferred results, mostly of look-alike calls on block-stored inputs, and evaluates them on one simulated cluster that keeps part "
    "of what it computed: one by one, several in one go, a slice only, twice, persisted, or shipped to another process; other calls happen in between.  "
    "Every evaluated result is compared with the same call alone in a fresh process.  Non-trivial: two deferred results were alive at once and tasks ran.  "
    "Distinct: calls, steps, layouts and full decision sequence."
)
ASSUMPTIONS = lm.ASSUMPTIONS + ["the cluster may reuse a kept result for any task of the same key, as dask's own schedulers do"]
REAL, STUB = lm.REAL + ["evaluation in other processes (forked before the package was first used)"], lm.STUB
GROUPS = ("steric", "derived", "average", "trend", "seasonal", "gauge")
BETWEEN = ["eager", "eager", "rng", "gc", "clock", "free"]


def runs(tier):
    return {"quick": 850, "thorough": 25000}[tier]


def gen(r, tier):
    groups = GROUPS if r.random() < 0.4 else (r.choice(GROUPS),)
    if r.random() < 0.5:
        cs = calls.kin(r, r.choice([2, 3, 3, 4]), options=r.choice([0.1, 0.7]))
    else:
        cs = calls.family(r, r.choice([2, 2, 3, 4, 5]), groups=groups)
    for c in cs:
        c["layouts"] = None
    seeds = {}
    for i, c in enumerate(cs):
        # look-alikes are laid out alike
        k = (c["op"], calls.key({x: y.get("seed") for x, y in c["specs"].items()}))
        s = seeds.setdefault(k, r.randrange(1 << 30))
        cs[i] = {**c, "layouts": inputs.draw_layouts(OPS[c["op"]], c["specs"], random.Random(s), eager_share=0.1)}
    n = len(cs)
    steps = [{"do": "build", "i": i} for i in range(n)]
    r.shuffle(steps)
    first = r.randrange(1, n + 1)
    tail = []
    for _ in range(r.randint(n, 2 * n + 1)):
        u = r.random()
        k = r.randrange(n)
        if u < 0.12:
            tail.append({"do": r.choice(BETWEEN), "i": k, "n": r.randrange(1 << 20)})
        else:
            tail.append(
                {
                    "do": "eval",
                    "i": k,
                    "with": [j for j in range(n) if j != k and r.random() < 0.5] if r.random() < 0.35 else [],
                    "how": r.choice(["whole", "whole", "slice", "pieces", "persist", "ship"]),
                }
            )
    # the rest is built somewhere on the way
    for st in steps[first:]:
        tail.insert(r.randrange(len(tail) + 1), st)
    tail += [{"do": "eval", "i": i, "with": [], "how": "whole"} for i in range(n)]
    cfg = cl.sample_config(r)
    cfg["mode"] = r.choice(["atomic", "atomic", "threads", "procs"])
    return {
        "calls": cs,
        "steps": steps[:first] + tail,
        "cluster": cfg,
        "keep": r.choice([0.0, 0.3, 0.8, 1.0]),
        "knobs": {"bottleneck": r.random() < 0.8, "sw": r.choice([0.05, 0.2])},
    }


def _inputs(c, scratch, tag):
    return inputs.build(OPS[c["op"]], c["specs"], c["layouts"], Store(), scratch, tag)


def _ship(obj):
    with dask.config.set(scheduler="sync"):
        return compare.to_plain(obj, lambda y: y.compute())


def cut(obj):
    """First half along the first dimension longer than one."""

    def one(x):
        d = next((d for d in x.dims if x.sizes[d] > 1), None)
        return x if d is None else x.isel({d: slice(0, x.sizes[d] // 2)})

    return compare.to_plain(obj, one)


def lazy(obj):
    """True if evaluating the object takes tasks."""
    if isinstance(obj, (tuple, list)):
        return any(lazy(x) for x in obj)
    return bool(getattr(obj, "__dask_graph__", lambda: None)())


def flat(obj):
    return [x for y in obj for x in flat(y)] if isinstance(obj, (tuple, list)) else [obj]


def run(plan, d, ctx):
    compare.STORED = False  # dask takes two results that differ only in this for one
    cs = plan["calls"]
    procs = proc.WorkerProcs(plan["cluster"]["workers"] if plan["cluster"]["mode"] == "procs" else 1, 2) if plan["cluster"]["mode"] == "procs" or any(s.get("how") == "ship" for s in plan["steps"]) else None
    try:
        return _run(plan, d, ctx, cs, procs)
    finally:
        if procs:
            procs.close()


def _run(plan, d, ctx, cs, procs):
    exp = {}
    for c in cs:
        k = calls.key(c)
        if k in exp:
            continue

        def alone(c=c):
            lm.setup_knobs(plan)
            with dask.config.set(scheduler="sync"):
                I = _inputs(c, ctx.scratch, "-alone")
                o = OPS[c["op"]]
                try:
                    r = compare.to_plain(o.call(I, c["p"]), lambda y: y.compute())
                except Exception as e:
                    return (("err", type(e).__name__, str(e)[:300]), None)
                return (("ok", compare.snapshot(r)), compare.snapshot(cut(r)))

        st, v = proc.call_in_fork(alone)
        if st != "ok":
            raise RuntimeError("fresh process failed: " + v)
        exp[k] = v
    lm.setup_knobs(plan)
    sink = {}
    c_ = cl.Cluster(plan["cluster"], d, runner=threads.make_runner(plan["knobs"]["sw"], sink=sink), procs=procs if plan["cluster"]["mode"] == "procs" else None)
    if plan["keep"]:
        c_.keep = lambda k: d.chance("keep", plan["keep"])
    built, most, evals = {}, 0, 0
    Is = {}
    bad = []

    def tol(c):
        rt, at = OPS[c["op"]].tol(c["specs"])
        return (rt, at)

    def judge(i, got, what, sliced=False):
        e, ecut = exp[calls.key(cs[i])]
        single = any(s.get("fdtype") == "f4" for s in cs[i]["specs"].values())
        if sliced:
            if got[0] == "ok":
                out = compare.differences(ecut, got[1], tol(cs[i]), dtypes=not single)
            else:
                out = [f"expected a result, got {compare.brief(got)}"]
        else:
            out = compare.outcome_diff(e, got, tol=tol(cs[i]), dtypes=not single)
        return [f"{cs[i]['op']} {what}: {x}" for x in out[:2]]

    with c_.config():
        for si, st in enumerate(plan["steps"]):
            i = st["i"] % len(cs)
            c = cs[i]
            o = OPS[c["op"]]
            if st["do"] == "build":
                if i in built:
                    continue
                Is[i] = _inputs(c, ctx.scratch, f"-{i}")
                try:
                    built[i] = ("ok", o.call(Is[i], c["p"]))
                except Exception as e:
                    built[i] = ("err", type(e).__name__, str(e)[:300])
                    bad += judge(i, built[i], "built among others")
                most = max(most, sum(1 for b in built.values() if b[0] == "ok" and lazy(b[1])))
            elif st["do"] == "eval":
                group = [j for j in [i] + list(st["with"]) if j in built and built[j][0] == "ok"]
                if not group or group[0] != i:
                    continue
                how = st["how"]
                evals += 1
                if len(group) > 1 and how in ("whole", "persist"):
                    f = [flat(built[j][1]) for j in group]
                    fn = dask.persist if how == "persist" else dask.compute
                    try:
                        outs = fn(*[x for y in f for x in y])
                    except Exception as e:
                        if any(exp[calls.key(cs[j])][0][0] == "err" for j in group):
                            continue  # one of them fails alone, too
                        bad += [f"{c['op']} evaluated together with others: {type(e).__name__}: {str(e)[:200]}"]
                        break
                    ctx.probe("evaluations of several results in one go")
                    pos = 0
                    for j, y in zip(group, f):
                        part = outs[pos : pos + len(y)]
                        pos += len(y)
                        r = tuple(part) if isinstance(built[j][1], tuple) else list(part) if isinstance(built[j][1], list) else part[0]
                        got = compare.outcome(lambda: r, compute=lambda x: compare.to_plain(x, lambda q: q.compute()))
                        bad += judge(j, got, "evaluated together with others")
                elif how == "ship" and procs is not None:
                    import cloudpickle
                    import pickle

                    ctx.probe("deferred results shipped to another process")
                    try:
                        out = procs.execute(0, (_ship, "obj"), {"obj": built[i][1]})
                        got = ("ok", compare.snapshot(out))
                    except (pickle.PicklingError, TypeError, AttributeError) as e:
                        if "pickle" not in str(e).lower():
                            raise
                        got = ("err", type(e).__name__, str(e)[:300])
                    except Exception as e:
                        got = ("err", type(e).__name__, str(e)[:300])
                    bad += judge(i, got, "evaluated in another process")
                elif how == "slice":
                    got = compare.outcome(lambda: cut(built[i][1]), compute=lambda x: compare.to_plain(x, lambda y: y.compute()))
                    bad += judge(i, got, "evaluated in part", sliced=True)
                else:
                    got = compare.outcome(lambda: built[i][1], compute=lambda x: lm.evaluate(x, how if how in ("pieces", "persist") else "whole"))
                    bad += judge(i, got, "evaluated after other calls")
            elif st["do"] == "eager":
                with dask.config.set(scheduler="sync"):
                    got = calls.do({k: c[k] for k in ("op", "p", "specs")}, calls.eager(c, ctx.scratch, f"-e{si}"))
            elif st["do"] == "rng":
                np.random.seed(st["n"])
                random.seed(st["n"])
                np.random.normal(size=3)
            elif st["do"] == "gc":
                gc.collect()
            elif st["do"] == "clock":
                seams.CLOCK.advance(st["n"] - 500000.0)
            elif st["do"] == "free":
                Is.pop(i, None)
                gc.collect()
            if bad:
                break
    ctx.cluster(c_)
    ctx.probe("preemption points passed", sink.get("points", 0))
    for c in cs:
        ctx.probe(f"op {c['op']}")
    ctx.probe("evaluations", evals)
    if procs is not None and plan["cluster"]["mode"] == "procs":
        ctx.probe("tasks run in other processes", c_.stats["tasks"])
        ctx.fault("worker process killed", procs.kills)
    ctx.nontrivial = most >= 2 and c_.stats["tasks"] > 0
    ctx.key = hashlib.sha256(f"{cs}{plan['steps']}{d.digest()}".encode()).hexdigest()[:20]
    ctx.info = {"calls": [c["op"] for c in cs], "steps": [f"{s['do']} {s['i']} {s.get('how', '')}" for s in plan["steps"]], "alive": most}
    return bad


def simplify(plan):
    n = len(plan["steps"])
    for i in range(n - 1, -1, -1):
        yield {**plan, "steps": plan["steps"][:i] + plan["steps"][i + 1 :]}
    for i, s in enumerate(plan["steps"]):
        if s["do"] == "eval" and (s["with"] or s["how"] != "whole"):
            yield {**plan, "steps": plan["steps"][:i] + [{**s, "with": [], "how": "whole"}] + plan["steps"][i + 1 :]}
    if plan["keep"]:
        yield {**plan, "keep": 0.0}
    if plan["cluster"]["mode"] != "atomic":
        yield {**plan, "cluster": {**plan["cluster"], "mode": "atomic"}}
    for c in inputs.simplify_cluster(plan["cluster"]):
        yield {**plan, "cluster": c}
