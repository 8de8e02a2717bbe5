"""Storage reads that fail at a chosen point."""

import hashlib
import warnings

import dask

from . import lazymem as lm
from .. import calls, compare, inputs, proc, threads
from .. import cluster as cl
from ..ops import OPS, by_group
from ..store import FAIL_KINDS, Store, describe_layout

ID = "C08"
RULE = (
    "A run draws a routine and options and an input world held in blocks and lazily read arrays, counts the storage reads of a clean "
    "execution, then makes up to eight attempts, in each of which one read of one variable (or every one from there on) fails with one of "
    "ten kinds of error, while building or evaluating.  Non-trivial: at least one fault fired.  "
    "Distinct: routine, options, world, layout, fault positions and kinds."
)
ASSUMPTIONS = [
    "an injected read error surfaces as an exception of the storage layer; returning the exactly right result in spite of it (a retry) is accepted",
]
REAL, STUB = lm.REAL, lm.STUB
CHECKED = ("steric", "steric", "steric", "dz", "wave_speed", "validate", "steric_reject", "valid_area")  # routines that check values before use


def heard():
    w = warnings.catch_warnings(record=True)

    class C:
        def __enter__(self):
            self.w = w.__enter__()
            warnings.simplefilter("always")
            return self.w

        def __exit__(self, *a):
            return w.__exit__(*a)

    return C()


def told(said):
    """Messages of the warnings the package itself gave."""
    return sorted({str(x.message) for x in said if threads._in_repo(x.filename)})


def runs(tier):
    return {"quick": 2200, "thorough": 50000}[tier]


def gen(r, tier):
    groups = ("steric", "derived", "average", "trend", "seasonal", "gauge", "misc")
    pool = [o for o in by_group(*groups) if o.kinds and o.kinds != ["grid"]]
    bad = r.random() < 0.25  # an input the routine has to reject (or warn about)
    if bad:
        o = OPS[r.choice(CHECKED)]
    else:
        g = r.choice(sorted({o.group for o in pool}))
        o = r.choice([x for x in pool if x.group == g])
    p = {**o.params(r), "_raise": True}
    specs = inputs.draw_specs(o, p, r, small=r.random() < 0.6)
    if bad:
        specs["ocean"]["bad"] = r.choice(["area", "depth"] + ["edges"] * bool(p.get("edges")))
    return {
        "op": o.name,
        "p": p,
        "specs": specs,
        "layouts": inputs.draw_layouts(o, specs, r, lazy_share=r.choice([0.1, 0.5]), eager_share=0.0 if bad else 0.15),
        "cluster": cl.sample_config(r, modes=("atomic",), faulty=r.random() < 0.3),
        "evaluate": "whole",
        "attempts": [
            {
                "kind": r.choice(FAIL_KINDS),
                "forever": r.random() < 0.4,
                "where": "build" if bad and r.random() < 0.8 else r.choice(["build", "any", "any"]),
            }
            for _ in range(r.choice([1, 3, 5]) if not bad else 8)
        ],
        "knobs": {"bottleneck": True, "sw": 0.1},
    }


def run(plan, d, ctx):
    o = OPS[plan["op"]]
    lm.setup_knobs(plan)

    def clean():
        store = Store()
        with dask.config.set(scheduler="sync"):
            I = inputs.build(o, plan["specs"], plan["layouts"], store, ctx.scratch)
            box = {}

            def call():
                r = o.call(I, plan["p"])
                box["built"] = dict(store.seen)
                return r

            with heard() as said:
                out = compare.outcome(call, compute=lambda x: lm.evaluate(x, "whole"))
        return out, dict(store.seen), box.get("built", {}), told(said)

    st, v = proc.call_in_fork(clean)
    if st != "ok":
        raise RuntimeError("clean execution failed: " + v)
    exp, seen, built, warned = v
    store = Store()
    I = inputs.build(o, plan["specs"], plan["layouts"], store, ctx.scratch)
    c = cl.Cluster(plan["cluster"], d)
    tol = o.tol(plan["specs"])
    single = "f4" in str(plan["specs"])
    bad, trail, total = [], [], 0

    def same(what, got):
        return [f"{o.name} {what}: {x}" for x in compare.outcome_diff(exp, got, tol=tol, dtypes=not single)[:2]]

    with c.config():
        for a in plan["attempts"]:
            # which variable, then which of its reads
            table = built if a["where"] == "build" and built else seen
            name, at = None, None
            if table:
                names = sorted(table)
                name = names[d.choose("variable", len(names))]
                at = d.choose("read", table[name])
            store.rearm(name, at, 10**9 if a["forever"] else 1, a["kind"])
            res = None
            with heard() as said:
                try:
                    res = o.call(I, plan["p"])
                    got = ("ok", compare.snapshot(lm.evaluate(res, "whole")))
                except Exception as e:
                    got = ("err", type(e).__name__, str(e)[:300])
            fired = sum(store.fired.values())
            total += fired
            for k, m in store.fired.items():
                ctx.fault(f"read error: {k}", m)
            trail.append(f"{name}#{at} {a['kind']}{' on' if a['forever'] else ''}" if fired else "none")
            if not (exp[0] == "err" and got[0] == "err") and not (fired and got[0] == "err"):
                bad += same("a failed read was turned into data" if fired else "differs without a fault", got)
            if fired and got[0] == "ok" and not bad:
                now = told(said)
                bad += [f"{o.name} skipped a check after a failed read: no more warning that {m[:120]}" for m in warned if m not in now][:1]
                ctx.probe("results in spite of a failed read")
            ctx.probe("fault while building", 1 if fired and res is None else 0)
            # storage recovers: what was built is still good
            store.rearm()
            if res is not None and not bad:
                again = compare.outcome(lambda: lm.evaluate(res, "whole"))
                if exp[0] == "ok" or again[0] == "ok":
                    bad += same("evaluated again after recovery", again)
            if bad:
                break
        if not bad:
            with heard() as said:
                again = compare.outcome(lambda: o.call(I, plan["p"]), compute=lambda x: lm.evaluate(x, "whole"))
            bad += same("called again after recovery", again)
            if not bad:
                now = told(said)
                bad += [f"{o.name} called again after recovery: no more warning that {m[:120]}" for m in warned if m not in now][:1]
            ctx.probe("recoveries checked")
    ctx.cluster(c)
    ctx.nontrivial = total > 0
    ctx.probe("inputs that must be rejected", 1 if exp[0] == "err" else 0)
    ctx.probe(f"op {o.name}")
    ctx.probe("attempts", len(trail))
    ctx.key = hashlib.sha256(f"{plan['op']}{plan['p']}{plan['specs']}{plan['layouts']}{trail}".encode()).hexdigest()[:20]
    ctx.info = {"reads": seen, "attempts": trail, "outcome": compare.brief(exp)}
    return bad


def simplify(plan):
    n = len(plan["attempts"])
    for i in range(n):
        if n > 1:
            yield {**plan, "attempts": plan["attempts"][:i] + plan["attempts"][i + 1 :]}
    yield from lm.simplify(plan)
