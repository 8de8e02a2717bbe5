"""Station lists on a simulated file system."""

import csv
import errno
import hashlib
import io
import os
import pathlib
import random
import re

import dask

from .. import calls, compare, fsim, inputs, ops, proc, world
from ..ops import OPS

ID = "C14"
RULE = (
    "A run is a sequence of one to four extractions with station files in the run's own directories.  Before and during each call the simulator may "
    "create, remove or replace the file (atomically, or in place with the same size and time stamp), change the working directory, plant files that "
    "carry the names of the built-in lists, fail a stat/open/read, or shorten reads; the position is an event number in the call's file operations.  "
    "Non-trivial: a fault fired or the file changed.  Distinct: calls, options, versions, events and read sizes."
)
ASSUMPTIONS = [
    "the unit of file-system change is a whole operation (stat, open, one read); an opened file keeps its content when the name is replaced",
    "a call that meets a failing operation may raise or return exactly what one present version gives",
]
REAL = ["momlevel", "pandas", "xarray", "scikit-learn", "the files themselves (in a scratch directory)"]
STUB = ["open/stat/read results", "clock, entropy"]
ERR = {"EIO": errno.EIO, "EACCES": errno.EACCES, "ESTALE": errno.ESTALE, "EMFILE": errno.EMFILE}
NAMES = ["stations.csv", "stations.csv", "us_tide_gauges.csv", "global_tide_gauges.csv", "us.csv", "list", "Global", "us "]


def runs(tier):
    return {"quick": 1200, "thorough": 40000}[tier]


def gen(r, tier):
    o = OPS["tidegauge"]
    specs = {"gauge": world.sample("gauge", r, small=r.random() < 0.7)}
    if r.random() < 0.15:
        specs["gauge"]["sites"] = r.choice([15, 15, 40])
    specs["gauge"]["crlf"] = r.random() < 0.1
    nver = r.choice([2, 3, 4])
    if r.random() < 0.3:
        specs["gauge"]["flaws"] = {str(r.randrange(nver)): r.choice(["fields", "word", "empty"])}
    steps = []
    name = r.choice(NAMES)
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        p = o.params(r)
        if r.random() < 0.7:
            p["csv"] = "file"
        during = []
        for _ in range(r.choice([0, 1, 1, 2])):
            during.append(
                {
                    "do": r.choice(["replace", "replace", "rewrite", "remove", "fail", "fail", "fail", "fail_on", "sector"]),
                    "ver": r.randrange(nver),
                    "err": r.choice(sorted(ERR)),
                }
            )
        before = []
        for _ in range(r.choice([0, 1, 1, 2])):
            before.append({"do": r.choice(["replace", "rewrite", "rewrite", "remove", "create", "chdir", "other", "swap"]), "ver": r.randrange(nver)})
        steps.append({"p": p, "before": before, "during": during, "short": r.random() < 0.4, "form": r.choice(["abs", "abs", "rel", "rel", "path"]), "sub": r.random() < 0.2})
    return {"specs": specs, "nver": nver, "name": name, "decoys": r.random() < 0.6, "steps": steps}


def version(spec, n):
    """Text of version n; all versions of a run have the same number of bytes."""
    s = {**spec, "sitesrc": spec.get("sitesrc", 0) + 1000 * n, "sites": max(1, spec["sites"] - (n % 2))}
    rows = world.stations(s).rstrip("\n").split("\n")
    rows = [rows[0] + ",remark"] + [x + f",v{n}" for x in rows[1:]]
    if n % 3 == 1:  # another version may order its columns differently
        cells = [_cells(x) for x in rows]
        rows = [",".join([c[2], c[1], c[0]] + c[3:]) for c in cells]
    flaw = (spec.get("flaws") or {}).get(str(n))
    if flaw:
        # the last row is not a station
        c = _cells(rows[-1])
        at = rows[0].split(",").index("lat")
        if flaw == "fields" and len(rows) > 2:
            c.insert(1, "extra")
        elif flaw == "word":
            c[at] = "north"
        else:
            c[at] = ""
        rows[-1] = ",".join(c)
    text = "\n".join(rows)
    text += "z" * (max(700, 100 * s["sites"]) - len(text.encode()) - 1) + "\n"
    return text.replace("\n", "\r\n") if spec.get("crlf") else text


def _cells(row):
    """Fields of a row as written, quotes included."""
    return re.findall(r'(?:^|(?<=,))("(?:[^"]|"")*"|[^,]*)', row)


def listed(text):
    """Names of the stations in a list, independently of the package."""
    rows = list(csv.DictReader(io.StringIO(text)))
    return list(dict.fromkeys(r.get("name") or r.get("PSMSL_site") for r in rows))


def honest(exp, text, p, flawed):
    """What a clean extraction returns has to be the list it was given."""
    if flawed:
        return [] if exp[0] == "err" else ["a list with a row that is not a station is taken for a shorter list"]
    if exp[0] == "err":
        return []
    got, names = [str(k) for k, _ in exp[1]["data_vars"]], listed(text)
    if p["threshold"] is None and got != names:
        return [f"a clean extraction does not return the stations listed: {[x for x in names if x not in got][:4]} missing, {[x for x in got if x not in names][:4]} added"]
    twice = len(names) < text.count("\n") - 1  # which of two entries is near enough decides the order
    if set(got) - set(names) or (not twice and [x for x in names if x in got] != got):
        return ["a clean extraction does not keep to the list's stations and their order"]
    return []


class Files:
    """What the caller and others do to the station files, with a history of versions."""

    def __init__(self, root, plan):
        self.plan = plan
        self.dirs = [os.path.join(root, d) for d in ("a", "b")]
        for i, d in enumerate(self.dirs):
            os.makedirs(os.path.join(d, "sub"))
            os.makedirs(os.path.join(d, "resources"))
            if plan["decoys"]:
                for n in ("us", "global", "us_tide_gauges.csv", "global_tide_gauges.csv", "resources/us_tide_gauges.csv", "resources/global_tide_gauges.csv", "sub/us_tide_gauges.csv"):
                    p = os.path.join(d, n)
                    if n != plan["name"]:
                        self._put(p, f"name,lat,lon,country,number,note\nDECOY_{i},{10 * i},{20 + i},XX,0,decoy\n")
        self.cur = {}  # path -> version or None
        self.seen = {}  # path -> versions current since mark()
        for i, d in enumerate(self.dirs):
            for s in ("", "sub"):
                self.write(os.path.join(d, s, plan["name"]), i % plan["nver"])

    def _put(self, path, text):
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)

    def text(self, v):
        return version(self.plan["specs"]["gauge"], v)

    def _set(self, path, v):
        self.cur[path] = v
        self.seen.setdefault(path, set()).add(v)

    def write(self, path, v):
        """Rewrite in place between calls: same inode, size and time stamp."""
        old = fsim._stat(path) if os.path.lexists(path) else None
        with fsim._open(path, "w", encoding="utf-8") as f:
            f.write(self.text(v))
        os.utime(path, ns=(10**18, 10**18) if old is None else (old.st_atime_ns, old.st_mtime_ns))
        self._set(path, v)

    def replace(self, path, v):
        tmp = path + ".tmp"
        with fsim._open(tmp, "w", encoding="utf-8") as f:
            f.write(self.text(v))
        os.utime(tmp, ns=(10**18, 10**18))
        os.replace(tmp, path)
        self._set(path, v)

    def remove(self, path):
        try:
            os.remove(path)
        except FileNotFoundError:
            pass
        self._set(path, None)

    def mark(self):
        self.seen = {p: {v} for p, v in self.cur.items()}


def run(plan, d, ctx):
    o = OPS["tidegauge"]
    spec = plan["specs"]["gauge"]
    want = {}

    def fresh(p, v):
        key = calls.key([p, v])
        if key not in want:
            path = os.path.join(ctx.scratch, f"fresh-{v}.csv")
            with open(path, "w", encoding="utf-8") as f:
                f.write(version(spec, v or 0))

            def go():
                os.chdir(ctx.scratch)
                I = inputs.build(o, plan["specs"], scratch=ctx.scratch)
                I["csv"] = path
                return compare.outcome(lambda: o.call(I, p))

            st, out = proc.call_in_fork(go)
            if st != "ok":
                raise RuntimeError(out)
            want[key] = out
        return want[key]

    builtin = {k: os.path.join(os.environ["DSIM_SRC"], "resources", f"{k}_tide_gauges.csv") for k in ("us", "global")}
    bad = []
    # everything expected is worked out before the first call in this process
    for s in plan["steps"]:
        for v in range(plan["nver"]):
            e = fresh(s["p"], v)
            if s["p"]["csv"] == "file":
                bad += honest(e, version(spec, v), s["p"], str(v) in (spec.get("flaws") or {}))
            else:
                with open(builtin[s["p"]["csv"]], encoding="utf-8") as f:
                    bad += honest(e, f.read(), s["p"], False)
                break
    if bad:
        ctx.key = "list"
        return bad[:1]
    files = Files(ctx.scratch, plan)
    here = 0
    os.chdir(files.dirs[here])
    I = inputs.build(o, plan["specs"], scratch=ctx.scratch)
    trail = []
    changed = 0
    for n, s in enumerate(plan["steps"]):
        p = s["p"]
        path = os.path.join(files.dirs[here], "sub" if s["sub"] else "", plan["name"])
        for b in s["before"]:
            v = b["ver"] % plan["nver"]
            other = os.path.join(files.dirs[1 - here], "sub" if s["sub"] else "", plan["name"])
            if b["do"] == "chdir":
                here = 1 - here
                os.chdir(files.dirs[here])
                path = os.path.join(files.dirs[here], "sub" if s["sub"] else "", plan["name"])
            elif b["do"] == "other":
                files.replace(other, v)
            elif b["do"] == "swap":
                va, vb = files.cur[path], files.cur[other]
                for q, x in ((path, vb), (other, va)):
                    files.remove(q) if x is None else files.replace(q, x)
            elif b["do"] == "remove":
                files.remove(path)
            elif b["do"] in ("create", "rewrite"):
                files.write(path, v)
            else:
                files.replace(path, v)
            changed += b["do"] != "chdir"
        files.mark()
        user = p["csv"] == "file"
        rel = os.path.join("sub", plan["name"]) if s["sub"] else plan["name"]
        I["csv"] = {"abs": path, "rel": rel, "path": pathlib.Path(path)}[s["form"]]
        target = path if user else builtin[p["csv"]]

        def call():
            return compare.outcome(lambda: o.call(I, p))

        # number of file operations of this call, from a copy of this process
        def dry():
            with fsim.FS([target]) as fs:
                call()
            return fs.n

        st, nops = proc.call_in_fork(dry)
        if st != "ok":
            raise RuntimeError(nops)
        fs = fsim.FS([target], d, s["short"])
        for e in s["during"]:
            at = d.choose("at", nops + 1)
            v = e["ver"] % plan["nver"]
            if e["do"] == "sector":
                fs.bad_at = d.choose("byte", 24) * len(files.text(0).encode()) // 24
            elif e["do"] in ("fail", "fail_on"):
                if e["do"] == "fail":
                    fs.fail[at] = ERR[e["err"]]
                else:
                    fs.fail_from = (at, ERR[e["err"]])
            elif user:
                f = {
                    "replace": lambda v=v: files.replace(path, v),
                    # rewriting in place while somebody reads is not atomic: replace instead
                    "rewrite": lambda v=v: files.replace(path, v),
                    "remove": lambda: files.remove(path),
                }[e["do"]]
                fs.at.setdefault(at, []).append(lambda f=f, e=e: (f(), ctx.fault(f"file {e['do']}d during the call")))
        with fs:
            got = call()
        for k, m in fs.fired.items():
            ctx.fault(k, m)
        failed = any(not k.startswith("short") for k in fs.fired)
        changed += bool(fs.fired)
        if user:
            vers = files.seen[path]
        else:
            vers = {0}
        trail.append(f"{p['csv']} versions {sorted(map(str, vers))} faults {sorted(fs.fired)} ops {fs.log[:12]} -> {got[0]}")
        exps = [fresh(p, v) for v in sorted(x for x in vers if x is not None)]
        if got[0] == "ok":
            diffs = [compare.outcome_diff(e, got, tol=None) for e in exps]
            if not diffs:
                bad.append(f"extraction succeeded without its file: call {n + 1} returned {[k for k, _ in got[1]['data_vars']][:6]}")
            elif all(diffs):
                best = min(diffs, key=len)
                bad.append(f"extraction used something else than the station file: call {n + 1}: {best[0]}")
        else:
            if not failed and None not in vers and not any(e[0] == "err" for e in exps):
                bad.append(f"extraction failed although its file was there: call {n + 1}: {got[1]}: {got[2][:200]}")
        if bad:
            break
    ctx.nontrivial = changed > 0
    ctx.probe("extractions", n + 1)
    ctx.key = hashlib.sha256(f"{plan}{d.digest()}".encode()).hexdigest()[:20]
    ctx.info = {"steps": trail}
    return bad


def simplify(plan):
    st = plan["steps"]
    for i in range(len(st)):
        if len(st) > 1:
            yield {**plan, "steps": st[:i] + st[i + 1 :]}
        for f in ("before", "during"):
            for j in range(len(st[i][f])):
                yield {**plan, "steps": st[:i] + [{**st[i], f: st[i][f][:j] + st[i][f][j + 1 :]}] + st[i + 1 :]}
        for f, v in (("short", False), ("sub", False), ("form", "abs")):
            if st[i][f] != v:
                yield {**plan, "steps": st[:i] + [{**st[i], f: v}] + st[i + 1 :]}
    if plan["decoys"]:
        yield {**plan, "decoys": False}
    for s in inputs.simplify_specs(plan["specs"]):
        yield {**plan, "specs": s}
