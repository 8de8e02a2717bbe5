"""Simulated storage: arrays whose every read goes through a store that can
log, refuse or fail it.  Served either as dask blocks (what open_mfdataset
gives) or as xarray lazily indexed backend arrays (what open_dataset gives)."""

import errno
import hashlib

import dask.array as da
import numpy as np
import xarray as xr
from xarray.backends.common import BackendArray
from xarray.core import indexing


class StorageFault(OSError):
    pass


class Store:
    def __init__(self):
        self.log = []  # (name, normalised index, nbytes)
        self.phase = "build"
        self.reads = 0
        self.fail_at = None  # index of the read that fails
        self.fail_len = 1  # number of consecutive failing reads
        self.fail_kind = "EIO"
        self.fail_name = None  # count only the reads of this variable
        self.seen = {}
        self.down = set()  # names that refuse every read
        self.fired = {}

    def read(self, arr, key):
        out = arr.values[key]
        if out.size == 0:
            return out
        n = self.reads if self.fail_name is None else self.seen.get(arr.name, 0)
        self.reads += 1
        self.seen[arr.name] = self.seen.get(arr.name, 0) + 1
        self.log.append((self.phase, arr.name, norm_index(key, arr.values.shape)))
        if arr.name in self.down:
            self._fire("unavailable")
            raise StorageFault(errno.EIO, f"storage of {arr.name} is unavailable")
        if self.fail_at is not None and self.fail_name in (None, arr.name) and self.fail_at <= n < self.fail_at + self.fail_len:
            self._fire(self.fail_kind)
            raise self.make(arr.name)
        return out

    def rearm(self, name=None, at=None, length=1, kind="EIO"):
        """Forget the reads so far; fail from read `at` of `name` on."""
        self.reads, self.seen, self.fired = 0, {}, {}
        self.fail_name, self.fail_at, self.fail_len, self.fail_kind = name, at, length, kind

    def make(self, name):
        k = self.fail_kind
        if k == "EIO":
            return OSError(errno.EIO, f"Input/output error reading {name}")
        if k == "timeout":
            return TimeoutError(errno.ETIMEDOUT, f"timed out reading {name}")
        if k == "missing":
            return FileNotFoundError(errno.ENOENT, f"file of {name} vanished")
        if k == "denied":
            return PermissionError(errno.EACCES, f"permission denied reading {name}")
        if k == "connection":
            return ConnectionResetError(errno.ECONNRESET, f"connection reset reading {name}")
        if k == "runtime":
            return RuntimeError("NetCDF: HDF error")
        if k == "index":
            return IndexError("index exceeds dimension bounds")
        if k == "key":
            return KeyError(name)
        if k == "memory":
            return MemoryError(f"cannot allocate block of {name}")
        if k == "value":
            return ValueError(f"could not decode block of {name}")
        return StorageFault(errno.EIO, name)

    def _fire(self, k):
        self.fired[k] = self.fired.get(k, 0) + 1


FAIL_KINDS = ["EIO", "EIO", "timeout", "missing", "denied", "connection", "runtime", "index", "key", "memory", "value"]


def norm_index(key, shape):
    if not isinstance(key, tuple):
        key = (key,)
    out = []
    for k, n in zip(key, shape):
        if isinstance(k, slice):
            out.append(k.indices(n)[:2])
        elif np.isscalar(k) or isinstance(k, (int, np.integer)):
            out.append((int(k), int(k) + 1))
        else:
            a = np.asarray(k).ravel()
            out.append((int(a.min()), int(a.max()) + 1) if a.size else (0, 0))
    for n in shape[len(out):]:
        out.append((0, n))
    return tuple(out)


class SimArray:
    """Array-like read by dask tasks."""

    def __init__(self, name, values, store):
        self.name = name
        self.values = values
        self.store = store
        self.shape = values.shape
        self.dtype = values.dtype
        self.ndim = values.ndim

    def __getitem__(self, key):
        if self.store is None:
            return self.values[key].copy()
        return self.store.read(self, key).copy()

    def __getstate__(self):
        return (self.name, self.values)

    def __setstate__(self, st):
        self.__init__(st[0], st[1], None)


class SimBackend(BackendArray):
    def __init__(self, arr):
        self.arr = arr
        self.shape = arr.shape
        self.dtype = arr.dtype

    def __getitem__(self, key):
        return indexing.explicit_indexing_adapter(
            key, self.shape, indexing.IndexingSupport.BASIC, lambda k: self.arr[k]
        )


def _cuts(r, n, style, minlen=1):
    if style == "whole" or n <= minlen:
        return [n]
    if style == "ones" and minlen == 1:
        return [1] * n
    if style == "regular":
        k = r.randint(minlen, max(minlen, n - 1))
        out = [k] * (n // k)
        rest = n - k * (n // k)
        if rest:
            if rest >= minlen:
                out.append(rest)
            else:
                out[-1] += rest
        return out
    out, left = [], n
    while left:
        k = min(left, r.randint(minlen, max(minlen, min(n, left))))
        if left - k and left - k < minlen:
            k = left
        out.append(k)
        left -= k
    return out


def _coarsen(out, cap, r):
    """Join neighbouring blocks until no variable has more than `cap` of them."""

    def blocks(lay):
        n = 1
        for c in lay.values():
            n *= len(c)
        return n

    lays = [x for x in out.values() if isinstance(x, dict)]
    while lays:
        big = max(lays, key=blocks)
        if blocks(big) <= cap:
            break
        d = r.choice([d for d in big if len(big[d]) > 1])
        was = list(big[d])
        for x in lays:  # variables split alike stay split alike
            if x.get(d) == was:
                x[d] = [sum(was[i : i + 2]) for i in range(0, len(was), 2)]
    return out


def sample_layout(ds, r, zmin=1, lazy_share=0.15, eager_share=0.15, zdims=("z_l",), force_blocks=()):
    """{variable: None | 'lazy' | {dim: [chunks]}} for the non-index variables."""
    per_var = r.random() < 0.3
    cap = r.choice([12, 24, 48, 48, 400])  # blocks per variable: most runs small, some large
    mode = r.choice(["time", "space", "depth", "random", "random", "random", "ones", "whole", "irregular"])
    dims = {}

    # on symmetric grids xgcm refuses horizontally split fields
    sym = "xq" in ds.sizes and ds.sizes["xq"] == ds.sizes.get("xh", -9) + 1

    def cut(d, n):
        m = zmin if d in zdims else 1
        if sym and d in ("xh", "yh", "xq", "yq"):
            return [n]
        if mode == "time":
            st = r.choice(["ones", "regular", "irregular"]) if d == "time" else "whole"
        elif mode == "space":
            st = r.choice(["ones", "regular"]) if d in ("yh", "xh", "lat", "lon", "xq", "yq") else "whole"
        elif mode == "depth":
            st = r.choice(["ones", "regular"]) if d in zdims else "whole"
        elif mode in ("ones", "whole", "irregular"):
            st = mode
        else:
            st = r.choice(["whole", "ones", "regular", "irregular"])
        if st == "ones" and n > 40:
            st = "regular"
        if st == "irregular" and n > 100:
            k = r.randint(n // 6, n)
            return [min(k, n), n - k] if k < n else [n]
        if st == "regular" and n > 100:
            k = r.choice([30, 31, 90, 100, 365])
            k = min(k, n)
            out = [k] * (n // k)
            if n % k:
                out.append(n % k)
            return out
        return _cuts(r, n, st, m)

    out = {}
    for v in list(ds.variables):
        if v in ds.indexes or v in ds.dims:
            continue
        var = ds.variables[v]
        if var.dtype == object or var.ndim == 0 or var.dtype.kind in "mM":
            out[v] = None
            continue
        u = r.random()
        if u < eager_share and v not in force_blocks:
            out[v] = None
        elif u < eager_share + lazy_share and v not in force_blocks:
            out[v] = "lazy"
        else:
            lay = {}
            for d, n in zip(var.dims, var.shape):
                if per_var:
                    lay[d] = cut(d, n)
                else:
                    if (d, n) not in dims:
                        dims[(d, n)] = cut(d, n)
                    lay[d] = dims[(d, n)]
            out[v] = lay
    return _coarsen(out, cap, r)


def _fit(chunks, n):
    """The given cuts, clipped or extended to length n."""
    out, left = [], n
    for c in chunks:
        if left <= 0:
            break
        out.append(min(c, left))
        left -= out[-1]
    if left:
        out.append(left)
    return tuple(out)


def apply_layout(ds, layout, store):
    """Copy of `ds` whose variables live in simulated storage."""
    new = {}
    for v in ds.variables:
        old = ds.variables[v]
        lay = layout.get(v)
        if lay is None:
            new[v] = old if v in ds.indexes else old.copy(deep=True)
            continue
        vals = np.array(old.values)
        arr = SimArray(v, vals, store)
        if lay == "lazy":
            data = indexing.LazilyIndexedArray(SimBackend(arr))
        else:
            chunks = tuple(_fit(lay.get(d, [n]), n) for d, n in zip(old.dims, old.shape))
            h = hashlib.sha256(repr((v, vals.shape, str(vals.dtype), chunks)).encode())
            h.update(np.ascontiguousarray(vals).tobytes())
            data = da.from_array(
                arr,
                chunks=chunks,
                name=f"sim-{v}-{h.hexdigest()[:20]}",
                meta=np.empty((0,) * vals.ndim, dtype=vals.dtype),
            )
        new[v] = xr.Variable(old.dims, data, dict(old.attrs), dict(old.encoding))
    return ds.copy()._replace(variables=new)


def describe_layout(layout):
    out = {}
    for k, v in layout.items():
        out[k] = v if not isinstance(v, dict) else {d: (c if len(c) < 9 else f"{len(c)} blocks") for d, c in v.items()}
    return out
