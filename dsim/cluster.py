"""A simulated dask cluster: a scheduler and its workers in virtual time.

`Cluster.get` is handed to dask as the scheduler.  Graph construction and
optimisation are dask's own; which task runs where and when, how long it takes,
which worker dies with its memory, which attempt fails and which task runs
twice is decided here.  The work of a task is the real code.

Events live in a heap ordered by (virtual time, sequence number).  After the
fault budget of a run is used up no more faults are injected and the
computation has to finish within `step_cap` further events (liveness).
"""

import heapq
import pickle

import dask
import numpy as np
from dask.core import flatten, istask
from dask.highlevelgraph import HighLevelGraph
from dask.utils import ensure_dict

from . import compare
from .seams import CLOCK


class TaskError(Exception):
    """A task of the computation raised: the cluster reports it to the caller."""


class Stuck(Exception):
    """The computation did not finish although faults had stopped."""


class NotRepeatable(Exception):
    """Two executions of one task gave different results."""


class InjectedFault(Exception):
    pass


def transport(value, stats, readonly):
    """Send a value to another worker: serialised out of band and rebuilt.

    As in a real cluster the rebuilt arrays may sit on read-only frames."""
    bufs = []
    try:
        head = pickle.dumps(value, protocol=5, buffer_callback=bufs.append)
    except Exception:
        import cloudpickle

        bufs = []
        head = cloudpickle.dumps(value, protocol=5, buffer_callback=bufs.append)
    frames = []
    for b in bufs:
        raw = b.raw().tobytes()
        frames.append(raw if readonly else bytearray(raw))
    stats["transfers"] = stats.get("transfers", 0) + 1
    return pickle.loads(head, buffers=frames)


def _same(a, b, args):
    """Differences between two executions of one task beyond rounding."""
    try:
        sa, sb = compare.snapshot(_plain(a)), compare.snapshot(_plain(b))
    except Exception:
        return []
    scale = 0.0
    for v in args.values():
        if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.size:
            m = np.abs(v[np.isfinite(v)])
            scale = max(scale, float(m.max()) if m.size else 0.0)
    return compare.differences(sa, sb, tol=(1e-9, 1e-12 * scale))


def _plain(x):
    if isinstance(x, np.ndarray) or np.isscalar(x):
        return x
    if isinstance(x, (list, tuple)):
        return [_plain(i) for i in x]
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    return "opaque"


class Worker:
    def __init__(self, wid, slots, speed):
        self.wid = wid
        self.slots = slots
        self.speed = speed
        self.alive = True
        self.data = {}
        self.running = {}  # attempt id -> key
        self.proc = None


def sample_config(r, modes=("atomic", "atomic", "threads"), faulty=None):
    if faulty is None:
        faulty = r.random() < 0.75
    kinds = ["crash", "fail", "lost", "dup", "slow"]
    enabled = [k for k in kinds if r.random() < 0.6] if faulty else []
    return {
        "workers": r.choice([1, 2, 3, 4]),
        "slots": r.choice([1, 1, 2]),
        "order": r.choice(["random", "random", "lifo", "fifo", "depth"]),
        "rate": r.choice([0.02, 0.05, 0.15]),
        "faults": enabled,
        "budget": r.choice([3, 6, 12]) if enabled else 0,
        "release": r.random() < 0.7,
        "readonly": r.random() < 0.6,
        "mode": r.choice(list(modes)),
        "fuse": r.random() < 0.6,
        "split": r.choice([None, None, False]),
    }


class Cluster:
    def __init__(self, cfg, decider, stream="c", runner=None, procs=None):
        self.cfg = cfg
        self.d = decider
        self.s = stream
        self.stats = {"tasks": 0, "events": 0, "virtual_s": 0.0, "faults": {}, "transfers": 0, "recomputed": 0, "calls": 0}
        self.now = 0.0
        self.persisted = {}  # keys kept across computations (C16)
        self.keep = None  # predicate: which results to keep
        self.budget = cfg["budget"]
        self.runner = runner  # run several callables interleaved
        self.procs = procs  # pool of pristine worker processes
        self.evlog = []

    # ------------------------------------------------------------- dask entry

    def config(self):
        c = {"scheduler": self.get, "optimization.fuse.active": self.cfg["fuse"]}
        if self.cfg["split"] is not None:
            c["array.slicing.split-large-chunks"] = self.cfg["split"]
        return dask.config.set(c)

    def get(self, dsk, keys, **kwargs):
        self.stats["calls"] += 1
        if isinstance(dsk, HighLevelGraph):
            dsk = dsk.to_dict()
        dsk = ensure_dict(dsk)
        wanted = list(dict.fromkeys(flatten([keys]) if isinstance(keys, list) else [keys]))
        results = self._run(dict(dsk), wanted)

        def rebuild(k):
            if isinstance(k, list):
                return tuple(rebuild(i) for i in k)
            return results[k]

        return rebuild(keys)

    # -------------------------------------------------------------- simulation

    def _run(self, dsk, wanted):
        self.dsk = dsk
        sim = _Computation(self, dsk, wanted)
        try:
            return sim.run()
        finally:
            self.stats["virtual_s"] = self.now

    def _may(self, stream, p):
        if self.budget <= 0:
            return False
        if self.d.chance(stream, p):
            self.budget -= 1
            return True
        return False

    def _fault(self, kind):
        f = self.stats["faults"]
        f[kind] = f.get(kind, 0) + 1

    def _thunk(self, k, w, args):
        dsk = self.dsk
        if self.procs is not None:
            return lambda: self.procs.execute(w.wid, dsk[k], args)

        def run():
            return execute(dsk[k], args)

        return run


class _Computation:
    """One call of get(): a graph, the workers, and what happens to them."""

    def __init__(self, cl, dsk, wanted):
        self.cl, self.d, self.cfg, self.s = cl, cl.d, cl.cfg, cl.s
        self.dsk, self.wanted = dsk, wanted
        # visit the graph from the wanted keys, in argument order: the numbering
        # of tasks then depends on the shape of the graph and not on key names
        self.order, self.deps = {}, {}
        stack = list(reversed(wanted))
        while stack:
            k = stack.pop()
            if k in self.order:
                continue
            self.order[k] = len(self.order)
            self.deps[k] = ordered_deps(dsk, k)
            stack += reversed(self.deps[k])
        self.users = {k: [] for k in self.order}
        for k, ds_ in self.deps.items():
            for x in ds_:
                self.users[x].append(k)
        self.depth = {}
        for k in self.order:
            st = [k]
            while st:
                x = st[-1]
                if x in self.depth:
                    st.pop()
                    continue
                todo = [y for y in self.deps[x] if y not in self.depth]
                if todo:
                    st += todo
                else:
                    self.depth[x] = 1 + max((self.depth[y] for y in self.deps[x]), default=0)
                    st.pop()
        self.workers = [Worker(i, cl.cfg["slots"], 1.0) for i in range(cl.cfg["workers"])]
        self.serial = len(self.workers)
        if "slow" in self.cfg["faults"]:
            for w in self.workers:
                if self.d.chance(self.s + ".slow", 0.25):
                    w.speed = 20.0
                    cl._fault("slow worker")
        self.loc = {}  # key -> workers holding it, in order of arrival
        self.gathered = {}
        self.outputs = {}
        self.done = set()
        self.running = {}
        self.heap, self.seq, self.attempts = [], 0, 0
        for k in self.order:
            if k in cl.persisted:
                self._put(self.workers[self.order[k] % len(self.workers)], k, cl.persisted[k])
                cl.stats["persisted_hits"] = cl.stats.get("persisted_hits", 0) + 1
        self._plan()

    # -------------------------------------------------------------- bookkeeping

    def _put(self, w, k, v):
        w.data[k] = v
        l = self.loc.setdefault(k, [])
        if w not in l:
            l.append(w)

    def _plan(self):
        """Work out from scratch what must be produced and what is ready."""
        self.req, st = set(), [k for k in self.wanted if k not in self.gathered]
        while st:
            k = st.pop()
            if k in self.req or self.loc.get(k):
                continue
            self.req.add(k)
            st += self.deps[k]
        self.waiting = {}
        self.uses = {}
        self.ready = []
        for k in sorted(self.req, key=self.order.get):
            n = sum(1 for x in self.deps[k] if not self.loc.get(x))
            self.waiting[k] = n
            for x in self.deps[k]:
                self.uses[x] = self.uses.get(x, 0) + 1
            if n == 0 and k not in self.running:
                self.ready.append(k)

    def _arrived(self, k):
        """`k` has just become available on the cluster."""
        if k not in self.req:
            return
        self.req.discard(k)
        for x in self.users[k]:
            if x in self.req:
                self.waiting[x] -= 1
                if self.waiting[x] == 0 and x not in self.running:
                    self.ready.append(x)
        for x in self.deps[k]:
            n = self.uses.get(x, 0) - 1
            self.uses[x] = n
            if n <= 0 and self.cfg["release"] and (x not in self.wanted_set or x in self.gathered):
                if not any(x in self.deps[kk] for kk in self.running):
                    for w in self.loc.pop(x, []):
                        w.data.pop(x, None)

    def _push(self, t, ev):
        self.seq += 1
        heapq.heappush(self.heap, (t, self.seq, ev))

    def _fetch(self, w, k):
        if k in w.data:
            return w.data[k]
        ws = self.loc[k]
        src = ws[self.d.choose(self.s + ".src", len(ws))]
        v = transport(src.data[k], self.cl.stats, self.cfg["readonly"])
        self._put(w, k, v)
        return v

    # --------------------------------------------------------------------- run

    def run(self):
        cl, d, cfg, s = self.cl, self.d, self.cfg, self.s
        self.wanted_set = set(self.wanted)
        cap = 60 * len(self.order) + 2000
        steps = 0
        for k in self.wanted:
            self._gather(k)
        while len(self.gathered) < len(self.wanted_set):
            steps += 1
            cl.stats["events"] += 1
            if steps > cap:
                raise Stuck(f"{len(self.wanted_set) - len(self.gathered)} results missing after {steps} events")
            self._assign()
            if not self.heap:
                if not any(w.alive for w in self.workers):
                    self._new_worker()
                    continue
                raise Stuck("nothing runnable and nothing running")
            t, _, ev = heapq.heappop(self.heap)
            if t > cl.now:
                CLOCK.advance(t - cl.now)
                cl.now = t
            if ev[0] == "restart":
                self.workers.remove(ev[1])
                self._new_worker()
            else:
                self._end(*ev[1:])
        return self.gathered

    def _new_worker(self):
        self.workers.append(Worker(self.serial, self.cfg["slots"], 1.0))
        self.serial += 1

    def _gather(self, k):
        if k in self.gathered or not self.loc.get(k):
            return
        ws = self.loc[k]
        v = ws[self.d.choose(self.s + ".gather", len(ws))].data[k]
        if self.cfg["readonly"] or self.cfg["workers"] > 1:
            v = transport(v, self.cl.stats, self.cfg["readonly"])
        self.gathered[k] = v

    def _assign(self):
        d, cfg, s, cl = self.d, self.cfg, self.s, self.cl
        idle = [w for w in self.workers if w.alive and len(w.running) < w.slots]
        batch = []
        while self.ready and idle:
            pol = cfg["order"]
            if pol == "random":
                i = d.choose(s + ".task", len(self.ready))
            elif pol == "lifo":
                i = len(self.ready) - 1
            elif pol == "fifo":
                i = 0
            else:
                i = max(range(len(self.ready)), key=lambda j: (self.depth[self.ready[j]], -j))
            k = self.ready.pop(i)
            w = idle[d.choose(s + ".worker", len(idle))]
            self._start(batch, k, w, idle)
            if "dup" in cfg["faults"] and idle and cl._may(s + ".dup", cfg["rate"]):
                others = [x for x in idle if x is not w]
                if others:
                    cl._fault("duplicated task")
                    self._start(batch, k, others[d.choose(s + ".dupw", len(others))], idle)
        if batch:
            self._execute(batch)

    def _start(self, batch, k, w, idle):
        self.attempts += 1
        w.running[self.attempts] = k
        self.running[k] = self.running.get(k, 0) + 1
        batch.append((k, w, self.attempts))
        if len(w.running) >= w.slots:
            idle.remove(w)

    def _execute(self, batch):
        d, cfg, s, cl = self.d, self.cfg, self.s, self.cl
        thunks = []
        argl = []
        for k, w, _ in batch:
            args = {x: self._fetch(w, x) for x in self.deps[k]}
            thunks.append(cl._thunk(k, w, args))
            argl.append(args)
        cl.stats["tasks"] += len(batch)
        if cfg["mode"] == "threads" and len(batch) > 1 and cl.runner is not None:
            outs = cl.runner(thunks, d, s + ".thr")
            cl.stats["interleaved"] = cl.stats.get("interleaved", 0) + len(batch)
        else:
            outs = []
            for t in thunks:
                try:
                    outs.append((t(), None))
                except BaseException as e:  # reported to the caller of get
                    outs.append((None, e))
        for (k, w, aid), args, (value, err) in zip(batch, argl, outs):
            if err is None:
                if k in self.outputs:
                    bad = _same(self.outputs[k], value, args)
                    if bad:
                        err = NotRepeatable(f"a task gave another result when it was run again: {bad[0]}")
                else:
                    self.outputs[k] = _frozen(value)
            if err is None and "fail" in cfg["faults"] and cl._may(s + ".fail", cfg["rate"]):
                cl._fault("task attempt failed")
                err = InjectedFault()
            dur = w.speed * (1 + d.choose(s + ".dur", 8)) * 0.01
            self._push(cl.now + dur, ("end", w, aid, k, value, err))

    def _end(self, w, aid, k, value, err):
        cl, d, cfg, s = self.cl, self.d, self.cfg, self.s
        if not w.alive or aid not in w.running:
            return
        del w.running[aid]
        self._stop(k)
        if isinstance(err, InjectedFault):
            self._plan()
            return
        if err is not None:
            raise err
        if k in self.done:
            cl.stats["recomputed"] += 1
        self.done.add(k)
        if "lost" in cfg["faults"] and cl._may(s + ".lost", cfg["rate"]):
            cl._fault("result lost before it was reported")
            self._plan()
            return
        if k in self.req or (self.uses.get(k, 0) > 0) or (k in self.wanted_set and k not in self.gathered):
            self._put(w, k, value)
            self._arrived(k)
            if k in self.wanted_set:
                self._gather(k)
        if cl.keep is not None and cl.keep(k):
            cl.persisted[k] = value
        if "crash" in cfg["faults"] and cl._may(s + ".crash", cfg["rate"] * 0.5):
            live = [x for x in self.workers if x.alive]
            v = live[d.choose(s + ".victim", len(live))]
            self._crash(v)
            self._push(cl.now + 1.0 + d.choose(s + ".back", 50), ("restart", v))

    def _stop(self, k):
        self.running[k] -= 1
        if not self.running[k]:
            del self.running[k]

    def _crash(self, w):
        w.alive = False
        self.cl._fault("worker crash")
        for k in w.running.values():
            self._stop(k)
        w.running.clear()
        for k in list(w.data):
            self.loc[k].remove(w)
        w.data.clear()
        if self.cl.procs is not None:
            self.cl.procs.kill(w.wid)
        self._plan()


def ordered_deps(dsk, key):
    out, work = {}, [dsk[key]]
    while work:
        w = work.pop()
        t = type(w)
        if t is tuple and w and callable(w[0]):
            work += reversed(w[1:])
        elif t is list:
            work += reversed(w)
        elif t is dict:
            work += reversed(list(w.values()))
        else:
            try:
                if w in dsk:
                    out.setdefault(w)
            except TypeError:
                pass
    out.pop(key, None)
    return list(out)


def _frozen(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (tuple, list)):
        return type(v)(_frozen(x) for x in v) if type(v) in (tuple, list) else v
    return v


def execute(task, args):
    """Evaluate a dask task with the given dependency values."""
    if isinstance(task, list):
        return [execute(x, args) for x in task]
    if istask(task):
        f, a = task[0], task[1:]
        return f(*[execute(x, args) for x in a])
    try:
        if task in args:
            return args[task]
    except TypeError:
        pass
    return task
