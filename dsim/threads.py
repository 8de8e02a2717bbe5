"""Real threads, one running at a time, switched where the simulator says.

Every line (or, in some runs, bytecode instruction) executed in the package's
own source is a preemption point: the running thread asks the decider whether
to hand over, and to whom.  Locks created by the package are replaced by
simulated ones, so a thread that would block hands over instead.
"""

import _thread
import os
import sys
import types
import threading

REPO = os.path.realpath(os.environ.get("DSIM_SRC", "/repo/src/momlevel")) + os.sep
_current = None  # the Interleaver that is running, if any


class Deadlock(Exception):
    pass


class Abort(BaseException):
    pass


def _in_repo(filename, cache={}):
    r = cache.get(filename)
    if r is None:
        r = cache[filename] = filename.startswith(REPO) or os.path.realpath(filename).startswith(REPO)
    return r


def _importing(frame):
    while frame is not None:
        if frame.f_code.co_name == "<module>" or "importlib" in frame.f_code.co_filename:
            if "importlib" in frame.f_code.co_filename or _in_repo(frame.f_code.co_filename):
                return True
        frame = frame.f_back
    return False


_names = {}


def _where(f):
    w = _names.get(id(f))
    if w is None or w[0] is not f:
        w = _names[id(f)] = (f, f"{f.co_filename.rsplit('/', 1)[-1]}:{f.co_name}:{f.co_firstlineno}")
    return w[1]


def _shared():
    """Containers that all threads see: the package's module namespaces and what hangs on them, library settings."""
    import dask
    import numpy as np
    import xarray as xr

    out = [xr.core.options.OPTIONS, dask.config.config]
    for n, m in sorted(sys.modules.items()):
        if n.split(".")[0] == "momlevel" and m is not None:
            out.append(vars(m))
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                if isinstance(v, (dict, list, set)):
                    out.append(v)
                elif isinstance(v, types.FunctionType) and v.__module__ == n:
                    out.append(vars(v))
                    out += [x for x in (v.__defaults__ or ()) if isinstance(x, (dict, list, set))]
    return out, np.geterr


def _print(shared):
    """Changes when somebody changes what is shared (used to choose where to switch, never to judge)."""
    boxes, geterr, inputs, arrays = shared
    seen = [(x[1]._name, id(x[1]._variable), len(x[1]._coords)) for x in list(arrays.values())]
    for ds in inputs:
        for v in list(ds._variables.values()):
            seen.append((id(v._data), tuple(map(id, (v._attrs or {}).values())), tuple(map(id, (v._encoding or {}).values()))))
        seen.append((len(ds._variables), len(ds._attrs or {})))
    return hash((tuple(seen), tuple([hash(tuple(map(id, b.values() if isinstance(b, dict) else b))) if len(b) < 200 else len(b) for b in boxes]), tuple(geterr().values())))


class Interleaver:
    def __init__(self, fns, decider, stream, rate, opcodes=False, max_switches=4000, aims=None, watch=None):
        self.fns = fns
        self.aims = aims  # {thread: (place, occurrence)}: give way there and nowhere else
        self.places = [{} for _ in fns]  # per thread: places passed and how often
        self.hot = [{} for _ in fns]  # per thread: places right after something shared changed
        self.shared = (*_shared(), *watch) if aims is None and watch is not None else None
        self.print = None
        self.d = decider
        self.s = stream
        self.rate = rate
        self.opcodes = opcodes
        self.max_switches = max_switches
        self.n = len(fns)
        self.sems = [_thread.allocate_lock() for _ in fns]
        for x in self.sems:
            x.acquire()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.state = ["ready"] * self.n  # ready / blocked / done
        self.out = [(None, None)] * self.n
        self.ids = {}
        self.cur = None
        self.points = 0
        self.switches = 0
        self.trail = []
        self.dead = False

    # -------------------------------------------------------------- scheduling

    def _others(self, me):
        return [i for i in range(self.n) if i != me and self.state[i] == "ready"]

    def _hand_over(self, me, to):
        self.switches += 1
        self.cur = to
        if len(self.trail) < 400:
            self.trail.append(to)
        self.sems[to].release()
        if me is not None:
            self.sems[me].acquire()
            if self.dead and self.state[me] != "done":
                raise Abort()

    def point(self, me, frame=None):
        self.points += 1
        if self.switches >= self.max_switches:
            return
        if frame is not None:
            f = frame.f_code
            place = (_where(f), frame.f_lasti if self.opcodes else frame.f_lineno - f.co_firstlineno)
            k = self.places[me].get(place, 0)
            self.places[me][place] = k + 1
            if self.shared is not None:
                now = _print(self.shared)
                if now != self.print:
                    if self.print is not None:
                        self.hot[me][place] = k
                    self.print = now
            if self.aims is not None:
                if self.aims.get(me) != (place, k):
                    return
            elif not self.d.chance(self.s + ".sw", self.rate):
                return
        elif not self.d.chance(self.s + ".sw", self.rate):
            return
        if frame is not None and _importing(frame):
            return
        others = self._others(me)
        if others:
            self._hand_over(me, others[self.d.choose(self.s + ".to", len(others))])

    def block(self, me):
        """Thread `me` cannot proceed now: run somebody else."""
        self.state[me] = "blocked"
        others = self._others(me)
        if not others:
            self.dead = True
            raise Deadlock("every thread is waiting for a lock")
        self._hand_over(me, others[self.d.choose(self.s + ".blk", len(others))])

    def unblock_all(self):
        for i in range(self.n):
            if self.state[i] == "blocked":
                self.state[i] = "ready"

    def me(self):
        return self.ids.get(_thread.get_ident())

    # ------------------------------------------------------------------ tracing

    def _tracer(self, me):
        op = self.opcodes
        only = None
        if self.aims is not None:
            if me not in self.aims:
                return None
            only = self.aims[me][0][0]

        def local(frame, event, arg):
            if event == ("opcode" if op else "line"):
                self.point(me, frame)
            return local

        def glob(frame, event, arg):
            if event == "call" and _in_repo(frame.f_code.co_filename) and frame.f_code.co_name != "<module>":
                if only is not None and _where(frame.f_code) != only:
                    return None
                if op:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        return glob

    def _body(self, i):
        self.ids[_thread.get_ident()] = i
        self.sems[i].acquire()
        try:
            if self.dead:
                raise Abort()
            sys.settrace(self._tracer(i))
            try:
                self.out[i] = (self.fns[i](), None)
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.out[i] = (None, e)
        self.state[i] = "done"
        others = self._others(i)
        if self.dead:
            others = [j for j in range(self.n) if self.state[j] != "done"]
        if others:
            to = others[self.d.choose(self.s + ".end", len(others)) if not self.dead else 0]
            self._hand_over(None, to)
        elif any(st == "blocked" for st in self.state):
            self.dead = True
            j = self.state.index("blocked")
            self.cur = j
            self.sems[j].release()
        else:
            self.main.release()

    def run(self):
        global _current
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        _current = self
        try:
            for t in ths:
                t.start()
            self._hand_over(None, self.d.choose(self.s + ".first", self.n))
            self.main.acquire()
        finally:
            _current = None
        for t in ths:
            t.join()
        if self.dead:
            for i, (v, e) in enumerate(self.out):
                if isinstance(e, Abort):
                    self.out[i] = (None, Deadlock("stopped: every other thread is waiting for a lock"))
        return self.out


# -------------------------------------------------------------------- sim locks

_RealLock = threading.Lock
_RealRLock = threading.RLock


class SimLock:
    """Lock that hands over to another simulated thread instead of blocking."""

    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while True:
            if self._owner is None or (self._re and self._owner == me):
                self._owner = me
                self._count += 1
                return True
            if not blocking:
                return False
            il = _current
            i = il.me() if il is not None else None
            if i is None:
                if self._owner == me:
                    raise Deadlock("lock taken twice by one thread")
                raise Deadlock("lock held by a thread that is gone")
            if timeout is not None and timeout >= 0:
                il.point(i)
                if self._owner is not None and self._owner != me:
                    return False
                continue
            il.block(i)

    def release(self):
        if self._owner is None or (self._re and self._owner != _thread.get_ident()):
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if _current is not None:
                _current.unblock_all()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c, self._count, self._owner = self._count, 0, None
        if _current is not None:
            _current.unblock_all()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


def _from_repo():
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        if _in_repo(f.f_code.co_filename):
            return True
        f = f.f_back
    return False


def _Lock():
    return SimLock() if _from_repo() else _RealLock()


def _RLock():
    return SimLock(True) if _from_repo() else _RealRLock()


def install_locks():
    """Before the package is imported: its locks become simulated ones."""
    threading.Lock = _Lock
    threading.RLock = _RLock


def make_runner(cfg_rate, opcodes=False, sink=None):
    """Runner for Cluster(mode='threads')."""

    def run(thunks, decider, stream):
        il = Interleaver(thunks, decider, stream, cfg_rate, opcodes)
        out = il.run()
        if sink is not None:
            sink["points"] = sink.get("points", 0) + il.points
            sink["switches"] = sink.get("switches", 0) + il.switches
        return out

    return run
