import random

from . import lazymem as lm
from ..ops import OPS

ID = "C05"
RULE = (
    "A run draws a routine and its options, an input world, a block layout per variable, a cluster and its fault mix, "
    "then a schedule; in half of the runs one grid point is also computed from its series alone.  Non-trivial: the routine "
    "accepts the input in memory and the deferred result took at least one task or storage read.  Distinct: routine, options, "
    "world, layout and full decision sequence."
)
ASSUMPTIONS, REAL, STUB = lm.ASSUMPTIONS, lm.REAL, lm.STUB
simplify = lm.simplify


def runs(tier):
    return {"quick": 3200, "thorough": 60000}[tier]


def gen(r, tier):
    plan = lm.gen_plan(r, ["seasonal"], tier)
    plan["point"] = r.randrange(1 << 20) if r.random() < 0.5 else None
    return plan


def run(plan, d, ctx):
    bad, exp, got = lm.run_plan(plan, d, ctx)
    if not bad and plan["point"] is not None and plan["p"].get("dim", "time") == "time":
        o = OPS[plan["op"]]
        alone, iy, ix = lm.local_point(plan, random.Random(plan["point"]), ctx, got, o)
        rt, at = o.tol(plan["specs"])
        bad = lm.compare_point(got, alone, iy, ix, (1e-7, at))
        ctx.probe("points recomputed alone")
        bad = [f"{o.name} not local: at point ({iy},{ix}): {b}" for b in bad[:3]]
    return bad
