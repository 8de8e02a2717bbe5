"""Inputs of one operation: specs, layouts, files."""

import os

from . import store as st
from . import world


def draw_specs(op, p, r, small=False):
    force = op.force(p, r)
    specs = {}
    for k in op.kinds:
        if k == "csv":
            continue
        specs[k] = world.sample(k, r, small=small, **force.get(k, {}))
    return specs


def draw_layouts(op, specs, r, **kw):
    out = {}
    for k, s in specs.items():
        ds = world.build(s)
        z = op.zmin
        out[k] = st.sample_layout(ds, r, zmin=z, **kw)
    return out


def build(op, specs, layouts=None, store=None, scratch=None, tag=""):
    """Inputs for op.call; in memory when layouts is None."""
    I = {}
    for k, s in specs.items():
        ds = world.build(s)
        if layouts is not None and k in layouts:
            ds = st.apply_layout(ds, layouts[k], store)
        I[k] = ds
    if "csv" in op.kinds:
        path = os.path.join(scratch, f"stations{tag}.csv")
        with open(path, "w", encoding="utf-8") as f:
            f.write(world.stations(specs["gauge"]))
        I["csv"] = path
    return I


SIZES = ["nt", "nz", "ny", "nx", "years", "sites"]


def simplify_specs(specs, op=None):
    for k, s in specs.items():
        for f in SIZES:
            if f in s:
                lo = 3 if f == "nz" else 1
                for v in (lo, s[f] // 2, s[f] - 1):
                    if lo <= v < s[f]:
                        yield {**specs, k: {**s, f: v}}
        for f, v in (("land", 0.0), ("gaps", "none"), ("fdtype", "f8"), ("taxis", "index"), ("extra", False), ("bounds", False), ("order", "tyx"), ("calendar", "noleap"), ("coords2d", False)):
            if f in s and s[f] != v:
                yield {**specs, k: {**s, f: v}}


def simplify_layouts(layouts):
    for k, lay in layouts.items():
        for v, l in lay.items():
            if l is not None:
                yield {**layouts, k: {**lay, v: None}}
        for v, l in lay.items():
            if isinstance(l, dict):
                for d, c in l.items():
                    if len(c) > 1:
                        yield {**layouts, k: {**lay, v: {**l, d: [sum(c)]}}}


def simplify_cluster(cfg):
    if cfg.get("faults"):
        yield {**cfg, "faults": [], "budget": 0}
        for f in cfg["faults"]:
            yield {**cfg, "faults": [x for x in cfg["faults"] if x != f]}
    for k, v in (("mode", "atomic"), ("workers", 1), ("slots", 1), ("order", "fifo"), ("readonly", False), ("fuse", True), ("split", None), ("release", True)):
        if cfg.get(k) != v:
            yield {**cfg, k: v}
