from . import lazymem as lm

ID = "C06"
RULE = (
    "A run draws extraction options, a gridded field, station list, block or lazy layout per variable (field, coordinates, mask), "
    "a cluster and its fault mix, then a schedule.  Non-trivial: the call succeeds in memory and took at least one task or storage "
    "read.  Distinct: options, world, layout and full decision sequence."
)
ASSUMPTIONS, REAL, STUB = lm.ASSUMPTIONS, lm.REAL, lm.STUB
simplify = lm.simplify


def runs(tier):
    return {"quick": 2800, "thorough": 40000}[tier]


def gen(r, tier):
    return lm.gen_plan(r, ["gauge"], tier, lazy_share=0.3)


def run(plan, d, ctx):
    return lm.run_plan(plan, d, ctx)[0]
