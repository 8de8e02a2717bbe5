"""Failing calls: any operation the package asks of a library can be made to fail.

A profile hook sees every call that leaves the package's own source (Python or
C).  In a dry run the calls are counted per call site; in a fault run the
chosen call raises before it does anything.  Calls made while the package is
cleaning up (except / finally blocks, __exit__) are left alone, as no code can
be expected to survive a failure of its own clean-up.
"""

import ast
import sys

from .threads import _in_repo

SKIP_NAMES = {"__enter__", "__exit__", "__del__", "__aenter__", "__aexit__"}
_plain = (list, dict, str, tuple, set, frozenset, bytes, int, float, type(None))


class Injected:
    """Mixed into injected exceptions: the harness never swallows them."""

    dsim = True


class NoMemory(Injected, MemoryError):
    pass


class NoIO(Injected, OSError):
    pass


class Interrupted(Injected, KeyboardInterrupt):
    pass


KINDS = {
    "MemoryError": lambda: NoMemory("simulated: out of memory"),
    "OSError": lambda: NoIO(5, "simulated: Input/output error"),
    "KeyboardInterrupt": lambda: Interrupted("simulated: interrupted"),
}


def _cleanup_lines(filename, cache={}):
    r = cache.get(filename)
    if r is None:
        r = set()
        try:
            tree = ast.parse(open(filename).read())
        except (OSError, SyntaxError):
            tree = None
        for n in ast.walk(tree) if tree else ():
            if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                for part in list(n.handlers) + list(n.finalbody):
                    r.update(range(part.lineno, part.end_lineno + 1))
        cache[filename] = r
    return r


def _cleaning(frame):
    while frame is not None:
        c = frame.f_code
        if c.co_name in SKIP_NAMES or "importlib" in c.co_filename:
            return True
        if _in_repo(c.co_filename) and (c.co_name == "<module>" or frame.f_lineno in _cleanup_lines(c.co_filename)):
            return True
        frame = frame.f_back
    return False


class Injector:
    """with Injector(site=None): count; with Injector(site, nth, kind): fail."""

    def __init__(self, site=None, nth=0, kind="MemoryError"):
        self.site, self.nth, self.kind = site, nth, kind
        self.sites = {}
        self.fired = False
        self.n = 0

    def _hook(self, frame, event, arg):
        if event == "call":
            caller = frame.f_back
            if caller is None or not _in_repo(caller.f_code.co_filename) or _in_repo(frame.f_code.co_filename):
                return
            name = frame.f_code.co_name
            if name in SKIP_NAMES or "importlib" in frame.f_code.co_filename:
                return
        elif event == "c_call":
            caller = frame
            if not _in_repo(caller.f_code.co_filename):
                return
            s = getattr(arg, "__self__", None)
            if isinstance(s, _plain) or getattr(s, "__name__", "") == "builtins":
                return
            name = getattr(arg, "__name__", "?")
            if name in SKIP_NAMES:
                return
        else:
            return
        if _cleaning(caller):
            return
        f = caller.f_code
        site = f"{f.co_filename.rsplit('/', 1)[-1]}:{f.co_name}:{caller.f_lineno - f.co_firstlineno}:{name}"
        k = self.sites.get(site, 0)
        self.sites[site] = k + 1
        self.n += 1
        if site == self.site and k == self.nth and not self.fired:
            self.fired = True
            raise KINDS[self.kind]()

    def __enter__(self):
        sys.setprofile(self._hook)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
