"""Proof of determinism: the same seeds give the same decisions, outcome and
statistics in another interpreter, with another number of parallel runs and
under another hash seed."""

import json
import os
import subprocess
import sys

from . import engine, registry
from .decide import derive


def digests(ids, runs, procs):
    out = {}
    for pid in ids:
        mod = registry.load(pid)
        seeds = [derive("selftest", pid, i) % (1 << 48) for i in range(runs)]

        def on(tag, r, pid=pid):
            if "ok" in r:
                r = r["ok"]
                out[f"{pid}:{tag}"] = [r["digest"], r["violations"], r["decisions"], r["faults"], r["key"]]
            else:
                out[f"{pid}:{tag}"] = ["error", str(r)[:400]]

        engine.pool(((i, (lambda s=s: engine._one(mod, s, "quick"))) for i, s in enumerate(seeds)), procs, 120.0, on)
    return out


def main(a):
    ids = a.property or registry.IDS
    if a.digests:
        json.dump(digests(ids, a.runs, a.procs), sys.stdout)
        return 0
    got = []
    for procs, hs in ((8, "0"), (3, "0"), (8, "4242")):
        env = {**os.environ, "PYTHONHASHSEED": hs}
        p = subprocess.run([sys.executable, "-m", "dsim", "selftest", *ids, "--digests", "--runs", str(a.runs), "--procs", str(procs)], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        got.append(json.loads(p.stdout))
    bad = 0
    for k in sorted(got[0]):
        vs = [g.get(k) for g in got]
        if any(v != vs[0] for v in vs) or vs[0][0] == "error":
            bad += 1
            if bad < 10:
                print(f"NOT DETERMINISTIC {k}: {vs}")
    print(f"selftest: {len(got[0])} seeds of {len(ids)} properties, each run 3 times (8 and 3 processes, two hash seeds): {bad} differ")
    return 1 if bad else 0
