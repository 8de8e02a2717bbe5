"""Operations that fail part-way, then the call is repeated."""

import hashlib
import os
import tempfile

import dask

from .. import calls, compare, faults, inputs, proc, seams
from ..ops import ALTERED, OPS
from ..store import Store

ID = "C09"
RULE = (
    "A run draws one or two routines with options and inputs (in memory or in blocks), and up to ten attempts; in each attempt one call "
    "the package makes into a library (chosen by call site, then by occurrence) fails with out-of-memory, an I/O error or an interrupt, "
    "and afterwards the call is repeated cleanly.  Non-trivial: a fault fired in a call that otherwise succeeds.  "
    "Distinct: routine, options, world, sites, occurrences and kinds of the faults."
)
ASSUMPTIONS = [
    "the unit of failure is a call from the package's source into a library (including the functions it runs inside deferred tasks)",
    "calls made from except/finally blocks and context exits are not failed",
    "returning the exactly right result in spite of the failure is accepted",
]
REAL = ["momlevel", "xarray", "numpy", "pandas", "scikit-learn", "dask graphs and tasks (synchronous scheduler)"]
STUB = ["failing allocations, I/O and signals are raised at the call by a profile hook", "clock, entropy"]


def runs(tier):
    return {"quick": 1300, "thorough": 60000}[tier]


def gen(r, tier):
    cs = calls.family(r, r.choice([1, 1, 2]))
    lay = []
    for c in cs:
        o = OPS[c["op"]]
        lay.append(inputs.draw_layouts(o, c["specs"], r) if c["specs"] and r.random() < 0.25 else None)
    att = [{"call": r.randrange(len(cs)), "kind": r.choice(sorted(faults.KINDS)), "fault": r.random() < 0.85} for _ in range(r.choice([2, 4, 6, 8, 10]))]
    att[0]["fault"] = True
    return {"calls": cs, "layouts": lay, "attempts": att}


def _go(call, I):
    o = OPS[call["op"]]
    try:
        r = o.call(I, call["p"])
        r = compare.to_plain(r, lambda y: y.compute())
        return ("ok", compare.snapshot(r))
    except BaseException as e:
        if isinstance(e, (SystemExit, GeneratorExit)):
            raise
        return ("err", type(e).__name__, str(e)[:300], bool(getattr(e, "dsim", False)))


def _inputs(call, lay, scratch, tag):
    o = OPS[call["op"]]
    return inputs.build(o, call["specs"], lay, Store() if lay else None, scratch, tag)


def run(plan, d, ctx):
    cs = plan["calls"]

    def dry(i):
        with dask.config.set(scheduler="sync"):
            I = _inputs(cs[i], plan["layouts"][i], ctx.scratch, f"-dry{i}")
            clean = _go(cs[i], I)
            with faults.Injector() as inj:
                _go(cs[i], _inputs(cs[i], plan["layouts"][i], ctx.scratch, f"-dry{i}"))
        return clean, inj.sites

    base = []
    for i in range(len(cs)):
        st, v = proc.call_in_fork(dry, i)
        if st != "ok":
            raise RuntimeError("dry run failed: " + v)
        base.append(v)
    bad, trail = [], []
    # inputs belong to the caller: made once, used by every attempt
    Is = [_inputs(c, plan["layouts"][i], ctx.scratch, f"-{i}") for i, c in enumerate(cs)]
    snaps = [calls.snap_inputs(I) for I in Is]
    fired = 0
    tmp = os.path.join(ctx.scratch, "tmp-c09")
    os.mkdir(tmp)
    os.environ["TMPDIR"] = tempfile.tempdir = tmp
    here = os.path.join(ctx.scratch, "here-c09")
    os.mkdir(here)
    os.chdir(here)
    with dask.config.set(scheduler="sync"):
        g0 = seams.global_state()

        def after(i, what):
            g1 = seams.global_state()
            out = [f"{cs[i]['op']} {what} left process-wide settings changed: {x}" for x in seams.diff_state(g0, g1)]
            out += [f"{cs[i]['op']} {what} left a file behind: {x}" for d in (tmp, here) for x in sorted(os.listdir(d))[:1]]
            for j, I in enumerate(Is):
                out += [f"{cs[i]['op']} {what} altered an argument: {x}" for x in ALTERED]
                ALTERED.clear()
                out += [f"{cs[i]['op']} {what} left the caller's inputs changed: {x}" for x in calls.diff_inputs(snaps[j], calls.snap_inputs(I))]
            return out

        for a in plan["attempts"] + [{"call": i, "fault": False} for i in range(len(cs))]:
            i = a["call"] % len(cs)
            exp, sites = base[i]
            name = cs[i]["op"]
            site = nth = None
            if a["fault"] and sites:
                order = list(sites)
                site = order[d.choose("site", len(order))]
                nth = d.choose("nth", sites[site])
            with faults.Injector(site, nth or 0, a.get("kind", "MemoryError")) as inj:
                got = _go(cs[i], Is[i])
            if inj.fired:
                if exp[0] == "ok":
                    fired += 1
                    ctx.fault(f"call fails: {a['kind']}")
                trail.append(f"{site}#{nth} {a['kind']}")
                if got[0] == "ok":
                    ctx.probe("failures absorbed")
                    bad += [f"{name} swallowed a failure and returned something else: {x} (failed call {site})" for x in compare.outcome_diff(exp, got, tol=None)[:2]]
                elif not got[3] and got[:2] != exp[:2]:
                    # re-raised as something else: still an exception for the caller
                    ctx.probe("failures translated")
                bad += [f"{x} (failed call {site})" for x in after(i, "failing part-way")[:2]]
            else:
                trail.append("clean")
                bad += [f"{name} {'after a failed call' if fired else 'without a failure'}: {x}" for x in compare.outcome_diff(exp, got, tol=None)[:2]]
                bad += after(i, "completing")[:2]
                if fired:
                    ctx.probe("calls repeated after a failure")
            if bad:
                break
    ctx.nontrivial = fired > 0
    for c in cs:
        ctx.probe(f"op {c['op']}")
    ctx.probe("call sites seen", sum(len(b[1]) for b in base))
    ctx.key = hashlib.sha256(f"{cs}{trail}".encode()).hexdigest()[:20]
    ctx.info = {"attempts": trail}
    return bad


def simplify(plan):
    for i in range(len(plan["attempts"])):
        if len(plan["attempts"]) > 1:
            yield {**plan, "attempts": plan["attempts"][:i] + plan["attempts"][i + 1 :]}
    if len(plan["calls"]) > 1:
        for i in range(len(plan["calls"])):
            yield {
                "calls": [plan["calls"][i]],
                "layouts": [plan["layouts"][i]],
                "attempts": [{**a, "call": 0} for a in plan["attempts"] if a["call"] == i] or plan["attempts"][:1],
            }
    for i, l in enumerate(plan["layouts"]):
        if l is not None:
            yield {**plan, "layouts": plan["layouts"][:i] + [None] + plan["layouts"][i + 1 :]}
    for c in calls.simplify_calls(plan["calls"], least=len(plan["calls"])):
        yield {**plan, "calls": c}
