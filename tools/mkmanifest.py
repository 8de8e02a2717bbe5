"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
SIM = "deterministic simulation: seeded search over "
TECH = {
    "C01": "block layouts, schedules and worker/task faults of a simulated dask cluster; oracle: the same call in memory",
    "C02": "block layouts, schedules and worker/task faults of a simulated dask cluster; oracle: the same call in memory",
    "C03": "block layouts, schedules and worker/task faults of a simulated dask cluster; oracle: the same call in memory",
    "C04": "block layouts, schedules and worker/task faults of a simulated dask cluster; oracles: the same call in memory, and on one point's series",
    "C05": "block layouts, schedules (also line-interleaved threads and worker processes) and faults of a simulated cluster; oracles: in memory, one point's series",
    "C06": "block layouts, schedules and worker/task faults of a simulated dask cluster; oracle: the same call in memory",
    "C07": "layouts and calls on simulated storage that is down while results are built; read log as oracle",
    "C08": "failing reads of simulated storage at any point, then recovery; oracle: fault-free run",
    "C09": "failures (memory, I/O, interrupt) injected at any library call a routine makes, then repetition; oracle: clean run, state snapshots",
    "C10": "thread interleavings at source-line and bytecode granularity under a cooperative scheduler; oracle: each call alone",
    "C11": "histories of look-alike calls and ambient changes; oracle: each call first in a fresh process",
    "C12": "interpreter hash seeds and calls; oracle: bit equality across interpreters",
    "C13": "histories, threads and ambient random state around the generators; oracle: fresh process, bit equality",
    "C14": "file-system faults and concurrent file replacement on a simulated file layer; oracle: one version's result",
    "C15": "campaigns of processes killed at any point with only saved files surviving; oracle: one uninterrupted pass",
    "C16": "construction/evaluation orders of several deferred results on a simulated faulty cluster; oracle: each alone",
}
NOTE = {
    "default": "Sampled, not exhaustive: a clean run is evidence over the seeds explored. Trusts the simulator's model of the environment (listed as stubs in the evidence) and numpy/xarray themselves.",
    "C09": "Sampled. The unit of failure is a call from the package's source into a library.",
    "C10": "Sampled. Switches happen at line/bytecode boundaries of the package's own source; library internals are atomic.",
}
NA = {
    "C20": "pure function of its arguments: no schedule, clock, I/O, fault or history enters the relation between density and its derivatives",
    "C21": "pure arithmetic definition; what depends on schedules, storage and histories about sea level is C01, C07, C08, C11, C15, C16",
    "C22": "pure geometry of one call's arguments; nothing nondeterministic to simulate",
    "C23": "pure nearest-neighbour geometry; the file, storage and concurrency side of tide gauges is C06, C08, C14",
    "C24": "pure calendar arithmetic on the given axis; the schedule side of averages is C03",
    "C25": "pure least-squares algebra; the schedule side of trends is C04",
    "C26": "a predicate of one argument; the failing-storage side is C08 and the error text's stability is C12",
    "C27": "pure spherical geometry of two vectors",
    "C28": "pure algebraic definitions; the schedule side of these fields is C02",
}
claimed = [p["id"] for p in props if p["id"] in TECH]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"./check.sh {i} --tier quick",
            "thorough_cmd": f"./check.sh {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": SIM + TECH[i],
            "level": "exploration",
            "level_note": NOTE.get(i, NOTE["default"]),
        }
        for i in claimed
    ],
    "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in props if p["id"] not in TECH],
    "notes": "No hooks in /repo: every seam is reached from outside (dask's scheduler interface, xarray backend arrays, sys.settrace/setprofile, replaced open/stat, forked processes). selftest.sh proves determinism; replay.sh replays a reported violation.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), len(m["not_applicable"]))
