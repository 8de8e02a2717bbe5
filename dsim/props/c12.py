"""The same calls in interpreters with different hash seeds."""

import contextlib
import hashlib
import io
import json
import os
import pickle
import random
import re
import subprocess
import sys
import warnings

import dask

from .. import calls, compare, inputs, proc, seams
from ..ops import OPS
from ..store import Store

ID = "C12"
RULE = (
    "A run draws a batch of calls (accepted and rejected inputs, in memory or in blocks) and makes them, in the same order, in this process "
    "(hash seed 0) and in two newly started interpreters with hash seeds decided by the run's seed.  Non-trivial: a hash seed differs.  "
    "Distinct: batch and hash seeds."
)
ASSUMPTIONS = ["memory addresses in printed text are not compared"]
REAL = ["momlevel", "xarray", "numpy", "pandas", "scikit-learn", "whole Python interpreters"]
STUB = ["hash seed, clock, entropy"]
TIMEOUT = 240.0


def runs(tier):
    return {"quick": 96, "thorough": 3000}[tier]


def gen(r, tier):
    cs = []
    while len(cs) < 36:
        groups = ("average", "misc", "misc", "gauge") if r.random() < 0.5 else calls.ALL
        cs.append(calls.draw(r, groups))
    for c in cs:
        c["blocks"] = r.randrange(1 << 20) if r.random() < 0.15 else None
    return {"calls": cs, "interpreters": 2, "ambient": r.randrange(1 << 30)}


def one(c, scratch):
    o = OPS[c["op"]]
    lay = store = None
    if c["blocks"] is not None and c["specs"]:
        lay = inputs.draw_layouts(o, c["specs"], random.Random(c["blocks"]))
        store = Store()
    I = inputs.build(o, c["specs"], lay, store, scratch)
    text = io.StringIO()
    with contextlib.redirect_stdout(text), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = calls.do({k: c[k] for k in ("op", "p", "specs")}, I)
    msgs = [str(x.message) for x in w if "momlevel" in (x.filename or "")]
    return got, re.sub(r"0x[0-9a-f]+", "0x", text.getvalue()), msgs


def batch(plan, scratch):
    compare.RAW = True
    import numpy as np

    random.seed(plan["ambient"])
    np.random.seed(plan["ambient"])
    with dask.config.set(scheduler="sync"):
        return [one(c, scratch) for c in plan["calls"]]


def batch_main(path):
    with open(path) as f:
        job = json.load(f)
    os.chdir(job["scratch"])
    seams.install(job["plan"]["ambient"])
    out = batch(job["plan"], job["scratch"])
    with open(path + ".out", "wb") as f:
        pickle.dump(out, f)
    return 0


def run(plan, d, ctx):
    work = os.path.join(ctx.scratch, "work")
    os.mkdir(work)
    os.chdir(work)

    def here():
        seams.install(plan["ambient"])
        return batch(plan, work)

    st, base = proc.call_in_fork(here)
    if st != "ok":
        raise RuntimeError(base)
    bad = []
    hs = []
    for k in range(plan["interpreters"]):
        h = d.choose("hash", 2**32 - 1)
        hs.append(h)
        path = os.path.join(work, f"job{k}.json")
        with open(path, "w") as f:
            json.dump({"plan": plan, "scratch": work}, f)
        env = {**os.environ, "PYTHONHASHSEED": str(h), "DSIM_SCRATCH": ctx.scratch}
        p = subprocess.run([sys.executable, "-m", "dsim", "batch", path], env=env, cwd=work, capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError(f"interpreter with hash seed {h} failed:\n{p.stdout[-2000:]}\n{p.stderr[-3000:]}")
        with open(path + ".out", "rb") as f:
            got = pickle.load(f)
        ctx.fault("new interpreter with another hash seed", h != 0)
        for c, (o0, t0, w0), (o1, t1, w1) in zip(plan["calls"], base, got):
            diff = compare.outcome_diff(_strip(o0), _strip(o1), tol=None, text=True)
            if t0 != t1:
                diff.append(f"printed text {t0[:150]!r} != {t1[:150]!r}")
            if w0 != w1:
                diff.append(f"warnings {str(w0)[:150]} != {str(w1)[:150]}")
            bad += [f"{c['op']} depends on the hash seed: {x}" for x in diff[:1]]
        if bad:
            break
    for c in plan["calls"]:
        ctx.probe(f"op {c['op']}")
    ctx.probe("calls compared across interpreters", len(plan["calls"]) * len(hs))
    ctx.nontrivial = any(hs)
    ctx.key = hashlib.sha256(f"{plan['calls']}{hs}".encode()).hexdigest()[:20]
    ctx.info = {"hash_seeds": hs, "ops": [c["op"] for c in plan["calls"]]}
    return bad[:5]


def _strip(o):
    if o[0] == "err":
        return (o[0], o[1], re.sub(r"0x[0-9a-f]+", "0x", o[2]))
    return o


def simplify(plan):
    cs = plan["calls"]
    n = len(cs)
    if n > 1:
        h = max(1, n // 2)
        yield {**plan, "calls": cs[:h]}
        yield {**plan, "calls": cs[h:]}
        if n <= 6:
            for i in range(n):
                yield {**plan, "calls": cs[:i] + cs[i + 1 :]}
    if plan["interpreters"] > 1:
        yield {**plan, "interpreters": 1}
    if n == 1:
        for s in inputs.simplify_specs(cs[0]["specs"]):
            yield {**plan, "calls": [{**cs[0], "specs": s}]}
