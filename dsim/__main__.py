import argparse
import os
import sys
import tempfile
import shutil


def main():
    ap = argparse.ArgumentParser(prog="dsim")
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    c.add_argument("--runs", type=int)
    c.add_argument("--procs", type=int, default=min(8, os.cpu_count() or 1))
    r = sub.add_parser("replay")
    r.add_argument("file")
    s = sub.add_parser("selftest")
    s.add_argument("property", nargs="*")
    s.add_argument("--runs", type=int, default=40)
    s.add_argument("--procs", type=int, default=8)
    s.add_argument("--digests", action="store_true")
    b = sub.add_parser("batch")
    b.add_argument("file")
    a = ap.parse_args()

    scratch = tempfile.mkdtemp(prefix="dsim-root-", dir=os.environ.get("DSIM_SCRATCH"))
    os.environ["DSIM_SCRATCH"] = scratch
    me = os.getpid()
    try:
        from . import boot

        boot.boot()
        from . import engine, registry

        engine.raise_limits()
        if a.cmd == "check":
            mod = registry.load(a.property)
            if a.runs:
                mod.runs = lambda tier: a.runs
            return engine.check(mod, a.tier, a.seed, a.procs)
        if a.cmd == "batch":
            from .props import c12

            return c12.batch_main(a.file)
        if a.cmd == "replay":
            return engine.replay(a.file)
        from . import selftest

        return selftest.main(a)
    finally:
        if os.getpid() == me:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
