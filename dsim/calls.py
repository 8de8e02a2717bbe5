"""Single calls as data: drawing, look-alikes, expected outcome."""

import dask

from . import compare, inputs, proc, world
from .ops import OPS, by_group

ALL = ("steric", "derived", "average", "trend", "seasonal", "gauge", "misc", "synthetic")
TIED = ("sym", "annual", "dim", "edges")  # options that go with a particular shape of the input
FED = ("steric", "derived", "average", "trend", "seasonal", "gauge")  # groups whose routines all take input data


def draw(r, groups=ALL, small=True, exclude=(), only=None):
    pool = [o for o in by_group(*groups) if o.name not in exclude and (only is None or o.name in only)]
    # choose the group first so that no large group drowns the others
    gs = sorted({o.group for o in pool})
    g = r.choice(gs)
    pool = [o for o in pool if o.group == g]
    o = r.choices(pool, [x.weight for x in pool])[0]
    p = o.params(r)
    return {"op": o.name, "p": p, "specs": inputs.draw_specs(o, p, r, small=small and r.random() < 0.8)}


def lookalike(call, r):
    """Same routine, nearly the same call."""
    o = OPS[call["op"]]
    p, specs = dict(call["p"]), {k: dict(v) for k, v in call["specs"].items()}
    u = r.random()
    if specs and u < 0.65:
        k = r.choice(sorted(specs))
        specs[k] = world.sibling(specs[k], r)
    if p and (u >= 0.5 or not specs):
        q = o.params(r)
        free = [f for f in sorted(p) if f not in TIED]
        for f in r.sample(free, min(len(free), r.choice([1, 1, 2]))):
            p[f] = q[f]
    if o.name == "steric" and p["annual"] and (p["names"] or specs["ocean"]["taxis"] != "month" or specs["ocean"]["nt"] % 12):
        p["annual"] = False
    return {"op": o.name, "p": p, "specs": specs}


def family(r, n, groups=ALL, exclude=(), only=None, small=True):
    """n calls, mostly look-alikes of one another."""
    base = [draw(r, groups, small, exclude, only)]
    while len(base) < n:
        u = r.random()
        if u < 0.55:
            base.append(lookalike(r.choice(base), r))
        elif u < 0.7:
            base.append({k: v for k, v in r.choice(base).items()})
        else:
            base.append(draw(r, groups, small, exclude, only))
    return base


def kin(r, n, groups=FED, small=True, exclude=(), options=0.2):
    """n calls of one routine whose inputs (or one option) differ in a single respect."""
    base = draw(r, (r.choice(sorted(groups)),), small, exclude)
    for s in base["specs"].values():
        if s["kind"] in ("series", "daily") and r.random() < 0.6:
            s["calendar"] = r.choice(["standard", "julian", "proleptic_gregorian"])
            if s["kind"] == "series":
                s["years"] = r.choice([2, 3, 3, 4, 5])
    cs = [base]
    while len(cs) < n:
        c = r.choice(cs)
        free = [f for f in sorted(base["p"]) if f not in TIED]
        if free and (not base["specs"] or r.random() < (0.5 if OPS[base["op"]].group == "misc" else options)):
            f = r.choice(free)
            c = {**c, "p": {**c["p"], f: OPS[base["op"]].params(r)[f]}}
            if c["p"].get("annual") and c["p"].get("names"):
                c["p"]["names"] = None
        else:
            if not base["specs"]:
                cs.append(c)
                continue
            k = r.choice(sorted(base["specs"]))
            c = {**c, "specs": {**c["specs"], k: world.sibling(c["specs"][k], r)}}
        cs.append(c)
    return cs


def key(call):
    import json

    return json.dumps(call, sort_keys=True)


def eager(call, scratch, tag=""):
    o = OPS[call["op"]]
    return inputs.build(o, call["specs"], scratch=scratch, tag=tag)


def do(call, I):
    """Outcome of the call on the given inputs, fully evaluated."""
    o = OPS[call["op"]]
    return compare.outcome(lambda: o.call(I, call["p"]), compute=lambda x: compare.to_plain(x, lambda y: y.compute()))


def expected(calls, scratch, prep=None):
    """Outcome of each distinct call as the first call of a fresh process."""
    out = {}
    for c in calls:
        k = key(c)
        if k in out:
            continue

        def run(c=c):
            if prep:
                prep()
            with dask.config.set(scheduler="sync"):
                return do(c, eager(c, scratch, "-fresh"))

        st, v = proc.call_in_fork(run)
        if st != "ok":
            raise RuntimeError("fresh process failed: " + v)
        out[k] = v
    return out


def snap_inputs(I):
    out = {}
    for k, v in I.items():
        out[k] = compare.snapshot(v, enc=True) if hasattr(v, "variables") else v
    return out


def diff_inputs(a, b):
    bad = []
    for k in a:
        if isinstance(a[k], dict) and "kind" in a[k]:
            bad += [f"input {k} {x}" for x in compare.input_diff(a[k], b[k])]
    return bad


def simplify_calls(calls, least=1):
    """Smaller lists of calls."""
    n = len(calls)
    if n > least:
        for i in range(n):
            yield calls[:i] + calls[i + 1 :]
    for i, c in enumerate(calls):
        for s in inputs.simplify_specs(c["specs"]):
            # keep look-alikes alike: change every call that shares the base seed
            yield [
                {**x, "specs": {k: ({**v, **_delta(c["specs"][k], s[k])} if k in s and v.get("seed") == c["specs"][k].get("seed") else v) for k, v in x["specs"].items()}}
                if x["op"] == c["op"]
                else x
                for x in calls
            ]
        break


def _delta(a, b):
    return {k: b[k] for k in b if a.get(k) != b[k]}
