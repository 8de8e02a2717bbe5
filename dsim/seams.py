"""Seams that take ambient nondeterminism away from the process, and snapshots
of the process-wide settings a library call must leave alone."""

import builtins
import datetime
import decimal
import gc
import hashlib
import logging
import os
import random
import signal
import socket
import sys
import threading
import time
import warnings
import weakref

import numpy as np

_real_time = time.time
_real_monotonic = time.monotonic
_time_fns = {k: getattr(time, k) for k in ("localtime", "gmtime", "ctime", "strftime", "asctime")}
_date, _datetime = datetime.date, datetime.datetime


class VirtualClock:
    """Clock handed to the code under test; moved only by the simulator."""

    def __init__(self, start=1.0e9):
        self.now = start

    def advance(self, dt):
        self.now += dt


CLOCK = VirtualClock()


class _Same(type):
    """The simulated classes are stand-ins: instances are always the real ones."""

    def __instancecheck__(cls, obj):
        return isinstance(obj, cls._real)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, cls._real)


class SimDate(_date, metaclass=_Same):
    _real = _date

    def __new__(cls, *a, **k):
        return _date(*a, **k)

    @classmethod
    def today(cls):
        return _date.fromtimestamp(CLOCK.now)


class SimDatetime(_datetime, metaclass=_Same):
    _real = _datetime

    def __new__(cls, *a, **k):
        return _datetime(*a, **k)

    @classmethod
    def now(cls, tz=None):
        return _datetime.fromtimestamp(CLOCK.now, tz)

    @classmethod
    def today(cls):
        return _datetime.fromtimestamp(CLOCK.now)

    @classmethod
    def utcnow(cls):
        return _datetime.fromtimestamp(CLOCK.now, datetime.timezone.utc).replace(tzinfo=None)


class Addresses:
    """id() as the package sees it: an address is reused as soon as its object is freed."""

    def __init__(self):
        self.live, self.free, self.n = {}, [], 0

    def __call__(self, obj):
        real = builtins.id(obj)
        e = self.live.get(real)
        if e is not None and e[1]() is obj:
            return e[0]
        a = self.free.pop() if self.free else None
        if a is None:
            self.n += 1
            a = (1 << 60) + 16 * self.n

        def gone(_, real=real, a=a):
            if self.live.get(real, (None,))[0] == a:
                del self.live[real]
            self.free.append(a)

        try:
            self.live[real] = (a, weakref.ref(obj, gone))
        except TypeError:  # no way to see it freed: its real address
            self.free.append(a)
            return real
        return a


def _package():
    return [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "momlevel" and m is not None]


def install(seed):
    """Make entropy, uuid4, global RNGs and clocks functions of `seed`.

    Called once in every run process, after the fork that created it."""
    r = random.Random(seed)

    def urandom(n):
        return r.getrandbits(8 * n).to_bytes(n, "big") if n else b""

    os.urandom = urandom
    random.seed(seed)
    np.random.seed(seed % (2**32))
    CLOCK.now = 1.0e9 + (seed % 100000)
    time.time = lambda: CLOCK.now
    time.monotonic = lambda: CLOCK.now
    time.perf_counter = lambda: CLOCK.now
    time.time_ns = time.monotonic_ns = time.perf_counter_ns = lambda: int(CLOCK.now * 1e9)
    time.localtime = lambda t=None: _time_fns["localtime"](CLOCK.now if t is None else t)
    time.gmtime = lambda t=None: _time_fns["gmtime"](CLOCK.now if t is None else t)
    time.ctime = lambda t=None: _time_fns["ctime"](CLOCK.now if t is None else t)
    time.asctime = lambda t=None: _time_fns["asctime"](time.localtime() if t is None else t)
    time.strftime = lambda f, t=None: _time_fns["strftime"](f, time.localtime() if t is None else t)
    datetime.date, datetime.datetime = SimDate, SimDatetime
    addresses = Addresses()
    for m in _package():
        m.__dict__.setdefault("id", addresses)
        for k, v in list(vars(m).items()):
            if v is _date or v is _datetime:
                setattr(m, k, SimDate if v is _date else SimDatetime)
    warnings.simplefilter("ignore")
    warnings.filterwarnings("always", message="a warning nobody gives")  # order of the filters shows


def elsewhere(n):
    """Make this process look like one on another machine, on another day, with another user's environment."""
    if not n:
        return
    r = random.Random(n)
    CLOCK.advance(r.choice([1.0, 86400.0, 31557600.0]) * r.uniform(0.5, 9.0))
    for k, vals in ENVIRONMENT.items():
        v = r.choice(vals)
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    cpus = r.choice([1, 2, 3, 64])
    os.cpu_count = lambda: cpus
    os.sched_getaffinity = lambda pid: set(range(cpus))
    random.seed(n)
    np.random.seed(n % (2**32))


ENVIRONMENT = {
    "TZ": ["UTC", "Asia/Tokyo", None],
    "HOME": ["/nonexistent", "/tmp", None],
    "USER": ["root", "someone", None],
    "LANG": ["C", "de_DE.UTF-8", None],
    "LC_ALL": ["C", "tr_TR.UTF-8", None],
    "COLUMNS": ["20", "200", None],
    "TMPDIR": ["/nonexistent", None],
    "OMP_NUM_THREADS": ["1", "7", None],
    "HOSTNAME": ["here", "there", None],
    "DEBUG": ["1", None],
}


def _h(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]


def global_state(with_warnings=True):
    """Process-wide settings as a comparable dict."""
    import dask
    import pandas as pd
    import xarray as xr
    import locale

    st = np.random.get_state()
    out = {
        "numpy.random state": hashlib.sha256(st[1].tobytes()).hexdigest()[:16]
        + f":{st[2]}:{st[3]}:{st[4]}",
        "random state": _h(random.getstate()),
        "numpy error handling": _h(sorted(np.geterr().items())),
        "numpy print options": _h(
            sorted((k, str(v)) for k, v in np.get_printoptions().items())
        ),
        "xarray options": _h(
            sorted((k, str(v)) for k, v in xr.core.options.OPTIONS.items())
        ),
        "dask config": _h(
            sorted((k, str(v)) for k, v in _flat(dask.config.config) if k != "scheduler")
        ),
        "pandas options": _h(sorted((k, str(v)) for k, v in _flat(pd._config.config._global_config))),
        "working directory": _cwd(),
        "environment": _h(sorted(os.environ.items())),
        "locale": str(locale.setlocale(locale.LC_ALL)),
        "umask": _umask(),
        "garbage collector": f"{gc.isenabled()} {gc.get_threshold()} {gc.get_debug()}",
        "recursion limit": sys.getrecursionlimit(),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "hooks": _h([id(x) for x in (sys.excepthook, sys.displayhook, warnings.showwarning, warnings.formatwarning, threading.excepthook)]),
        "signal handlers": _h([str(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)]),
        "logging": _h([logging.root.level, len(logging.root.handlers), logging.root.manager.disable]),
        "module search path": _h(sys.path),
        "numpy buffer size": np.getbufsize(),
        "decimal context": _h(str(decimal.getcontext())),
        "socket timeout": str(socket.getdefaulttimeout()),
    }
    if with_warnings:
        out["warning filters"] = _h([tuple(map(str, f)) for f in warnings.filters])
    return out


def _cwd():
    try:
        return os.getcwd()
    except OSError as exc:
        return f"<{exc}>"


def _umask():
    m = os.umask(0)
    os.umask(m)
    return oct(m)


def _flat(d, pre=""):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from _flat(v, f"{pre}{k}.")
        else:
            yield (pre + str(k), v)


def diff_state(a, b):
    return [k for k in a if a[k] != b.get(k)]
