"""Seeded search: many short runs, each in its own forked process.

A property module provides
    ID, RULE, ASSUMPTIONS, REAL, STUB
    runs(tier)           -> number of runs
    gen(rng, tier)       -> plan (JSON data): everything but the schedule
    run(plan, decider, ctx) -> list of violation strings; fills ctx.stats
    simplify(plan)       -> iterable of smaller plans (for minimisation)
"""

import json
import os
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time as _time
import traceback

from . import seams
from .decide import Decider, derive

_now = _time.monotonic  # real clock, bound before any seam is installed
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.stats = {}
        self.faults = {}
        self.probes = {}
        self.key = ""  # identifies the schedule / case for distinctness
        self.virtual_s = 0.0
        self.nontrivial = True
        self.info = {}

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + n

    def cluster(self, cl):
        for k, v in cl.stats["faults"].items():
            self.fault(k, v)
        self.probe("tasks executed", cl.stats["tasks"])
        self.probe("scheduler events", cl.stats["events"])
        self.probe("blocks transferred between workers", cl.stats["transfers"])
        self.probe("tasks recomputed after loss", cl.stats["recomputed"])
        self.probe("tasks interleaved line by line", cl.stats.get("interleaved", 0))
        self.probe("results found on the cluster", cl.stats.get("persisted_hits", 0))
        self.virtual_s += cl.stats["virtual_s"]


def _one(mod, seed, tier, plan=None, record=None, timeout=None):
    """Executed in a forked child: one run.  Returns a JSON-able result."""
    scratch = tempfile.mkdtemp(prefix="dsim-", dir=os.environ["DSIM_SCRATCH"])
    try:
        cwd = os.path.join(scratch, "cwd")
        os.mkdir(cwd)
        os.chdir(cwd)
        # anything the code keeps on disk stays in the run's own directory
        for k, sub in (("HOME", "home"), ("TMPDIR", "tmp"), ("XDG_CACHE_HOME", "home/.cache")):
            os.environ[k] = os.path.join(scratch, sub)
            os.makedirs(os.environ[k], exist_ok=True)
        tempfile.tempdir = None
        if plan is None:
            plan = mod.gen(random.Random(derive(mod.ID, seed, "plan")), tier)
            plan = json.loads(json.dumps(plan))
        d = Decider(seed=derive(mod.ID, seed, "decide"), record=record)
        seams.install(derive(mod.ID, "ambient", json.dumps(plan, sort_keys=True)) % (2**31))
        ctx = Ctx(scratch)
        viol = mod.run(plan, d, ctx)
        return {
            "seed": seed,
            "plan": plan,
            "violations": viol,
            "record": d.record,
            "digest": d.digest(),
            "decisions": d.n_decisions,
            "faults": ctx.faults,
            "probes": ctx.probes,
            "virtual_s": ctx.virtual_s,
            "key": ctx.key or d.digest(),
            "nontrivial": ctx.nontrivial,
            "info": ctx.info,
        }
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


class Child:
    def __init__(self, fn):
        self.buf = bytearray()
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    out = {"ok": fn()}
                except BaseException:
                    out = {"error": traceback.format_exc()}
                data = json.dumps(out).encode()
                while data:
                    n = os.write(w, data)
                    data = data[n:]
            except BaseException:
                traceback.print_exc()
                code = 70
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        self.fd = r
        self.t0 = _now()

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(self.pid, 0)
        os.close(self.fd)

    def finish(self):
        os.waitpid(self.pid, 0)
        os.close(self.fd)
        try:
            os.killpg(self.pid, signal.SIGKILL)  # stray grandchildren
        except (ProcessLookupError, PermissionError):
            pass
        if not self.buf:
            return {"error": "run process ended without a result"}
        return json.loads(bytes(self.buf).decode())


def pool(jobs, nproc, timeout, on_result, deadline=None, stop=lambda: False):
    """jobs: iterator of (tag, fn).  on_result(tag, result|{'timeout':1})."""
    live = {}
    jobs = iter(jobs)
    more = True
    while True:
        while more and len(live) < nproc and not stop() and not (deadline and _now() > deadline):
            try:
                tag, fn = next(jobs)
            except StopIteration:
                more = False
                break
            c = Child(fn)
            live[c.fd] = (tag, c)
        if not live:
            break
        rl, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rl:
            tag, c = live[fd]
            b = os.read(fd, 1 << 20)
            if b:
                c.buf += b
            else:
                del live[fd]
                on_result(tag, c.finish())
        t = _now()
        for fd in list(live):
            tag, c = live[fd]
            if t - c.t0 > timeout:
                del live[fd]
                c.kill()
                on_result(tag, {"timeout": True})


def run_one(fn, timeout):
    out = []
    pool([(0, fn)], 1, timeout, lambda t, r: out.append(r))
    return out[0]


# ----------------------------------------------------------------- minimisation


def vclass(v):
    """Class of a violation: the text before the first colon."""
    return v.split(":", 1)[0]


def minimise(mod, res, tier, timeout, budget_s, nproc):
    """Shrink plan and decision record while the same class of violation persists."""
    t_end = _now() + budget_s
    cls = {vclass(v) for v in res["violations"]}
    best = res
    tried = 0

    def attempts(cands):
        """Run candidates in parallel, return the first (in order) that still fails."""
        nonlocal tried
        outs = {}
        cands = list(cands)
        if not cands:
            return None
        hit = []

        def got(tag, r):
            outs[tag] = r
            if "ok" in r and cls & {vclass(v) for v in r["ok"]["violations"]}:
                hit.append(tag)

        pool(
            [
                (i, (lambda p=p, rec=rec: _one(mod, res["seed"], tier, plan=p, record=rec)))
                for i, (p, rec) in enumerate(cands)
            ],
            nproc,
            timeout,
            got,
            deadline=t_end,
        )
        tried += len(outs)
        return outs[min(hit)]["ok"] if hit else None

    # 1. does it fail with no schedule deviations and faults at all?
    r = attempts([(best["plan"], {})])
    if r:
        best = r
    # 2. smaller plans
    improved = True
    while improved and _now() < t_end:
        improved = False
        cands = [(p, best["record"]) for p in mod.simplify(best["plan"])]
        for i in range(0, len(cands), nproc):
            r = attempts(cands[i : i + nproc])
            if r:
                best = r
                improved = True
                break
            if _now() > t_end:
                break
    # 3. ddmin over the decision record
    rec = dict(best["record"])
    n = 2
    while len(rec) >= 1 and _now() < t_end:
        keys = sorted(rec)
        size = max(1, len(keys) // n)
        chunks = [keys[i : i + size] for i in range(0, len(keys), size)]
        r = None
        for i in range(0, len(chunks), nproc):
            cands = [(best["plan"], {k: v for k, v in rec.items() if k not in set(c)}) for c in chunks[i : i + nproc]]
            r = attempts(cands)
            if r or _now() > t_end:
                break
        if r:
            best = r
            rec = dict(best["record"])
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(keys), n * 2)
    return best, tried


# --------------------------------------------------------------------- checking


def load_known():
    """Entries 'finding: property=<id> match=<text>' of known_findings.txt."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                body = line[len("finding: "):]
                prop, _, rest = body.partition(" ")
                out.append((prop.split("=", 1)[1], rest))
    return out


def check(mod, tier, seed, nproc=8):
    t0 = _now()
    nruns = mod.runs(tier)
    timeout = getattr(mod, "TIMEOUT", 120.0)
    wall = getattr(mod, "WALL", {}).get(tier, 420.0 if tier == "quick" else 3000.0)
    deadline = t0 + wall
    seeds = [derive(seed, mod.ID, i) % (1 << 48) for i in range(nruns)]
    tot = {"runs": 0, "faults": {}, "probes": {}, "virtual_s": 0.0, "decisions": 0, "nontrivial": 0}
    keys, digests = set(), set()
    samples, bad, errors, hung = [], [], [], []
    known = [(p, t) for p, t in load_known() if p == mod.ID]
    known_hit = {}

    def on(tag, r):
        s = seeds[tag]
        if "timeout" in r:
            hung.append(tag)
            return
        if "error" in r:
            errors.append((tag, r["error"]))
            return
        r = r["ok"]
        tot["runs"] += 1
        tot["virtual_s"] += r["virtual_s"]
        tot["decisions"] += r["decisions"]
        for k, v in r["faults"].items():
            tot["faults"][k] = tot["faults"].get(k, 0) + v
        for k, v in r["probes"].items():
            tot["probes"][k] = tot["probes"].get(k, 0) + v
        digests.add(r["digest"])
        if r["nontrivial"]:
            keys.add(r["key"])
            tot["nontrivial"] += 1
        if len(samples) < 4 and r["nontrivial"] and tag % 7 == 3:
            samples.append({"seed": s, "plan": r["plan"], "decisions": r["decisions"], "faults": r["faults"], "info": r["info"]})
        viol = []
        for v in r["violations"]:
            hit = next((t for p, t in known if t and t in v), None)
            if hit:
                known_hit[hit] = known_hit.get(hit, 0) + 1
            else:
                viol.append(v)
        if viol:
            r["violations"] = viol
            bad.append((tag, r))

    pool(
        ((i, (lambda s=s: _one(mod, s, tier))) for i, s in enumerate(seeds)),
        nproc,
        timeout,
        on,
        deadline=deadline,
        stop=lambda: len(bad) >= 6 or len(errors) >= 5 or len(hung) >= 3,
    )

    # a run that did not come back: run it again alone with twice the time
    for tag in list(hung)[:2]:
        if bad:
            break
        r = run_one(lambda: _one(mod, seeds[tag], tier), timeout * 1.5)
        if "timeout" in r:
            plan = mod.gen(random.Random(derive(mod.ID, seeds[tag], "plan")), tier)
            bad.append((tag, {"seed": seeds[tag], "plan": json.loads(json.dumps(plan)), "violations": [f"no answer: the run never finished within {timeout * 1.5:.0f} s, twice (runs take well under a second)"], "record": None, "digest": "", "decisions": 0, "faults": {}, "info": {}, "hang": True}))
        elif "ok" in r:
            on(tag, r)
            hung.remove(tag)
    for k, v in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={mod.ID} {k} (seen in {v} runs)")

    code = 0
    if bad:
        bad.sort(key=lambda x: x[0])
        tag, res = bad[0]
        code = 1
        mins, tried = (res, 0)
        if not res.get("hang"):
            mins, tried = minimise(mod, res, tier, timeout, 60.0 if tier == "quick" else 300.0, nproc)
        path = write_replay(mod, mins, res, tier)
        ok = True
        if not res.get("hang"):
            again = run_one(lambda: _one(mod, mins["seed"], tier, plan=mins["plan"], record=mins["record"]), timeout)
            ok = again.get("ok", {}).get("violations") == mins["violations"] and again["ok"]["digest"] == mins["digest"]
        print(f"{mod.ID}: {len(bad)} failing run(s); first seed {res['seed']}: {res['violations'][0][:600]}")
        print(f"{mod.ID}: minimised in {tried} runs to {len(mins.get('record') or {})} schedule/fault decisions; replays exactly: {ok}")
        print(f"{mod.ID}: minimised violation: {mins['violations'][0][:600]}")
        print(f"VIOLATION property={mod.ID} replay={path}")
    elif errors or hung:
        code = 2
        for tag, e in errors[:3]:
            print(f"HARNESS-ERROR property={mod.ID} seed={seeds[tag]}\n{e}", file=sys.stderr)
        for tag in hung:
            print(f"HARNESS-ERROR property={mod.ID} seed={seeds[tag]}: run did not finish", file=sys.stderr)
    wall_s = _now() - t0
    write_evidence(mod, tier, seed, tot, keys, digests, samples, wall_s, len(bad), nruns, known_hit, nproc)
    print(
        f"{mod.ID} {tier}: {tot['runs']} runs of {nruns}, {len(keys)} distinct non-trivial, "
        f"{sum(tot['faults'].values())} faults, {wall_s:.1f} s, exit {code}"
    )
    return code


def write_replay(mod, mins, res, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{mod.ID}-{res['seed']}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": mod.ID,
                "seed": res["seed"],
                "tier": tier,
                "plan": mins["plan"],
                "record": mins["record"],
                "digest": mins["digest"],
                "violations": mins["violations"],
                "first_seen": res["violations"],
                "info": mins.get("info"),
            },
            f,
            indent=1,
        )
    return path


def replay(path):
    with open(path) as f:
        rp = json.load(f)
    from .registry import load

    mod = load(rp["property"])
    r = run_one(lambda: _one(mod, rp["seed"], rp["tier"], plan=rp["plan"], record=rp["record"]), 300.0)
    if "timeout" in r:
        got, dig = ["no answer: the run never finished"], ""
    elif "error" in r:
        print(r["error"])
        return 2
    else:
        got, dig = r["ok"]["violations"], r["ok"]["digest"]
    for v in got:
        print(v)
    same = got == rp["violations"] and dig == rp["digest"]
    print(f"reproduced exactly: {same}")
    if got:
        print(f"VIOLATION property={rp['property']} replay={path}")
        return 1
    return 0


def write_evidence(mod, tier, seed, tot, keys, digests, samples, wall_s, nbad, planned, known, nproc):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    hours = wall_s / 3600.0
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(keys),
        "rule": mod.RULE,
        "samples": samples or [{"note": "no sample recorded"}],
        "exhaustive": False,
        "planned_runs": planned,
        "runs_per_hour": round(tot["runs"] / hours) if hours else 0,
        "simulated_seconds": round(tot["virtual_s"], 3),
        "scheduler_decisions": tot["decisions"],
        "distinct_schedules": len(digests),
        "distinct_schedules_measure": "distinct digests of the full sequence of scheduler and fault decisions of a run",
        "faults_injected": dict(sorted(tot["faults"].items())),
        "probes": dict(sorted(tot["probes"].items())),
        "ran_real_code": mod.REAL,
        "ran_stub": mod.STUB,
        "processes": nproc,
    }
    if known:
        cov["known_findings_seen"] = known
    ev = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(wall_s, 2),
        "violations": nbad,
    }
    with open(os.path.join(VERIF, "evidence", f"{mod.ID}.json"), "w") as f:
        json.dump(ev, f, indent=1)


def raise_limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
