from . import lazymem as lm

ID = "C01"
RULE = (
    "A run draws a routine and its options, an input world, a block layout per variable, a cluster and its fault mix, "
    "then a schedule.  Non-trivial: the routine accepts the input in memory and the deferred result took at least one task or storage read. "
    "Distinct: routine, options, world, layout and full decision sequence."
)
ASSUMPTIONS, REAL, STUB = lm.ASSUMPTIONS, lm.REAL, lm.STUB
simplify = lm.simplify


def runs(tier):
    return {"quick": 1800, "thorough": 60000}[tier]


def gen(r, tier):
    return lm.gen_plan(r, ["steric"], tier)


def run(plan, d, ctx):
    return lm.run_plan(plan, d, ctx)[0]
