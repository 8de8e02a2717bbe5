"""Outcome snapshots and comparison.

`snapshot(obj)` turns whatever a routine returned (datasets, arrays, frames,
tuples, scalars) into a plain nested structure holding numpy arrays;
`differences(a, b)` lists how two snapshots differ.
"""

import datetime
import numpy as np
import pandas as pd
import xarray as xr


RAW = False  # compare printouts inside attributes too
STORED = True  # compare the precision a variable is to be written with


def _norm_attr(v):
    """Attributes compared by content; tuples, lists and arrays alike."""
    if isinstance(v, xr.DataArray):
        return ("array", repr(v.dims), v.shape)
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return ("seq",) + tuple(_norm_attr(x) for x in v)
    if isinstance(v, (np.generic,)):
        v = v.item()
    if isinstance(v, float):
        if v != v:
            return "NaN"
        return v
    if isinstance(v, str):
        i = v.find("<xarray.")
        return v if i < 0 or RAW else v[:i] + "<xarray printout>"
    if isinstance(v, dict):
        return ("dict",) + tuple((str(k), _norm_attr(x)) for k, x in v.items())
    return v if isinstance(v, (int, bool, type(None))) else repr(v)


def norm_attrs(attrs):
    return [(str(k), _norm_attr(v)) for k, v in attrs.items()]


def _values(x):
    a = np.asarray(x)
    return a.copy()


def _dtype(t):
    try:
        return None if t is None else str(np.dtype(t))
    except TypeError:
        return str(t)


def _var(v, enc=False):
    out = {
        "dims": tuple(v.dims),
        "dtype": str(v.dtype),
        "shape": tuple(v.shape),
        "values": _values(v.values),
        "attrs": norm_attrs(v.attrs),
        "stored": _dtype(v.encoding.get("dtype")),
    }
    if enc:
        out["encoding"] = norm_attrs(v.encoding)
    return out


def snapshot(obj, enc=False):
    if isinstance(obj, xr.DataArray):
        return {
            "kind": "DataArray",
            "name": obj.name,
            "var": _var(obj.variable, enc),
            "coords": [(k, _var(v.variable, enc)) for k, v in obj.coords.items()],
        }
    if isinstance(obj, xr.Dataset):
        return {
            "kind": "Dataset",
            "order": [str(k) for k in obj.variables],
            "data_vars": [(k, _var(obj[k].variable, enc)) for k in obj.data_vars],
            "coords": [(k, _var(v.variable, enc)) for k, v in obj.coords.items()],
            "attrs": norm_attrs(obj.attrs),
            "encoding": norm_attrs(obj.encoding) if enc else None,
        }
    if isinstance(obj, pd.DataFrame):
        return {
            "kind": "DataFrame",
            "columns": [str(c) for c in obj.columns],
            "index": [repr(i) for i in obj.index],
            "dtypes": [str(t) for t in obj.dtypes],
            "data": [_series(obj.iloc[:, i]) for i in range(obj.shape[1])],
        }
    if isinstance(obj, (tuple, list)):
        return {"kind": "seq", "items": [snapshot(x, enc) for x in obj]}
    if isinstance(obj, dict):
        return {
            "kind": "dict",
            "keys": [str(k) for k in obj],
            "items": [snapshot(x, enc) for x in obj.values()],
        }
    if isinstance(obj, np.ndarray):
        return {"kind": "ndarray", "dtype": str(obj.dtype), "values": obj.copy()}
    if isinstance(obj, (int, float, np.generic)) and not isinstance(obj, bool):
        return {"kind": "number", "values": np.asarray(obj)}
    if isinstance(obj, (str, bool, type(None))):
        return {"kind": "plain", "plain": obj}
    if callable(obj):
        return {
            "kind": "plain",
            "plain": f"{getattr(obj, '__module__', '')}.{getattr(obj, '__qualname__', '')}",
        }
    if hasattr(obj, "axes") and type(obj).__name__ == "Grid":
        return {
            "kind": "plain",
            "plain": repr(
                {
                    k: (sorted(a.coords.items()), str(a.boundary))
                    for k, a in sorted(obj.axes.items())
                }
            ),
        }
    if hasattr(obj, "isoformat"):
        return {"kind": "plain", "plain": (type(obj).__name__, obj.isoformat())}
    return {"kind": "plain", "plain": repr(obj)}


def _series(s):
    if s.dtype.kind in "fiub":
        return s.to_numpy().copy()
    return [_norm_attr(x) for x in s]


# ---------------------------------------------------------------- comparing


def _cmp_values(path, a, b, tol, out):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        out.append(f"{path}: shape {a.shape} != {b.shape}")
        return
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        if a.dtype.kind not in "fciub" or b.dtype.kind not in "fciub":
            out.append(f"{path}: kind {a.dtype} != {b.dtype}")
            return
        na, nb = np.isnan(a), np.isnan(b)
        if (na != nb).any():
            out.append(
                f"{path}: missing-value pattern differs in {int((na != nb).sum())} of {a.size} places"
            )
            return
        ia, ib = np.isinf(a), np.isinf(b)
        if (ia != ib).any() or (ia.any() and (np.sign(a[ia]) != np.sign(b[ib])).any()):
            out.append(f"{path}: infinities differ")
            return
        ok = ~(na | ia)
        if not ok.any():
            return
        x, y = a[ok].astype(float), b[ok].astype(float)
        if tol is None:
            bad = x != y
            lim = 0.0
        else:
            rtol, atol = tol
            scale = max(np.abs(x).max(), np.abs(y).max())
            single = "float32" in (str(a.dtype), str(b.dtype))
            lim = max(rtol, 2.0e-5 if single else 0.0) * scale + atol * (
                1.0e4 if single else 1.0
            )
            bad = np.abs(x - y) > lim
        if bad.any():
            i = int(np.argmax(np.abs(x - y)))
            out.append(
                f"{path}: {int(bad.sum())} of {a.size} values differ, e.g. {x[i]!r} != {y[i]!r} (allowed {lim:.3g})"
            )
        return
    if a.dtype.kind == "O" or b.dtype.kind == "O":
        fa = [_scalar(x) for x in a.ravel()]
        fb = [_scalar(x) for x in b.ravel()]
        if fa != fb:
            j = next(i for i, (p, q) in enumerate(zip(fa, fb)) if p != q)
            out.append(f"{path}: element {j}: {fa[j]!r} != {fb[j]!r}")
        return
    if a.dtype.kind != b.dtype.kind or not np.array_equal(a, b):
        out.append(f"{path}: values differ ({a.dtype} / {b.dtype})")


def _scalar(x):
    if hasattr(x, "isoformat"):
        return (type(x).__name__, getattr(x, "calendar", ""), x.isoformat())
    if isinstance(x, float) and x != x:
        return "NaN"
    if isinstance(x, datetime.timedelta):
        return str(x)
    return x


def _attr_eq(a, b, tol):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_attr_eq(x, y, tol) for x, y in zip(a, b))
    num = (int, float)
    if (
        tol is not None
        and isinstance(a, num)
        and isinstance(b, num)
        and not isinstance(a, bool)
        and not isinstance(b, bool)
    ):
        return abs(a - b) <= tol[0] * max(abs(a), abs(b)) + 1e-300
    return a == b


def _cmp_attrs(path, a, b, tol, out, order):
    if a is None or b is None:
        return
    da, db = dict(a), dict(b)
    for k in da:
        if k not in db:
            out.append(f"{path}: attribute {k!r} lost")
        elif not _attr_eq(da[k], db[k], tol):
            out.append(f"{path}: attribute {k!r}: {str(da[k])[:80]!r} != {str(db[k])[:80]!r}")
    for k in db:
        if k not in da:
            out.append(f"{path}: attribute {k!r} appeared")
    if order and [k for k, _ in a] != [k for k, _ in b]:
        out.append(f"{path}: attribute order differs")


def _cmp_var(path, a, b, tol, out, order, dtypes):
    if a["dims"] != b["dims"]:
        out.append(f"{path}: dims {a['dims']} != {b['dims']}")
        return
    if dtypes and a["dtype"] != b["dtype"]:
        out.append(f"{path}: dtype {a['dtype']} != {b['dtype']}")
    if STORED and a.get("stored") != b.get("stored"):
        out.append(f"{path}: precision it is to be stored with {a.get('stored')} != {b.get('stored')}")
    _cmp_values(path, a["values"], b["values"], tol, out)
    _cmp_attrs(path, a["attrs"], b["attrs"], tol, out, order)
    if "encoding" in a and "encoding" in b:
        _cmp_attrs(path + " encoding", a["encoding"], b["encoding"], tol, out, order)


def _cmp_named(path, a, b, tol, out, order, dtypes):
    da, db = dict(a), dict(b)
    for k in da:
        if k not in db:
            out.append(f"{path}{k}: missing")
        else:
            _cmp_var(f"{path}{k}", da[k], db[k], tol, out, order, dtypes)
    for k in db:
        if k not in da:
            out.append(f"{path}{k}: unexpected")
    if order and [k for k, _ in a] != [k for k, _ in b] and set(da) == set(db):
        out.append(
            f"{path or 'variables'}: order {[k for k, _ in a]} != {[k for k, _ in b]}"
        )


def differences(a, b, tol=(1.0e-9, 0.0), order=True, dtypes=True, path=""):
    """Differences from expected `a` to observed `b` (list of strings).

    tol is None for bit equality, else (rtol relative to the largest value of
    the array, atol)."""
    out = []
    if a["kind"] != b["kind"]:
        return [f"{path}: {a['kind']} != {b['kind']}"]
    k = a["kind"]
    if k == "DataArray":
        if a["name"] != b["name"]:
            out.append(f"{path}: name {a['name']!r} != {b['name']!r}")
        _cmp_var(path + "array", a["var"], b["var"], tol, out, order, dtypes)
        _cmp_named(path + "coord ", a["coords"], b["coords"], tol, out, order, dtypes)
    elif k == "Dataset":
        _cmp_named(path, a["data_vars"], b["data_vars"], tol, out, order, dtypes)
        _cmp_named(path + "coord ", a["coords"], b["coords"], tol, out, order, dtypes)
        _cmp_attrs(path + "dataset", a["attrs"], b["attrs"], tol, out, order)
        if a.get("encoding") is not None and b.get("encoding") is not None:
            _cmp_attrs(path + "dataset encoding", a["encoding"], b["encoding"], tol, out, order)
        if order and not out and a["order"] != b["order"]:
            out.append(f"{path}: variable order {a['order']} != {b['order']}")
    elif k == "DataFrame":
        for f in ("columns", "index", "dtypes"):
            if a[f] != b[f]:
                out.append(f"{path} frame {f}: {str(a[f])[:80]} != {str(b[f])[:80]}")
        if not out:
            for c, x, y in zip(a["columns"], a["data"], b["data"]):
                if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
                    _cmp_values(f"{path} column {c}", x, y, tol, out)
                elif len(x) != len(y) or not all(_attr_eq(p, q, tol) for p, q in zip(x, y)):
                    out.append(f"{path} column {c} differs")
    elif k in ("seq", "dict"):
        if k == "dict" and a["keys"] != b["keys"]:
            out.append(f"{path}: keys {a['keys']} != {b['keys']}")
        if len(a["items"]) != len(b["items"]):
            return [f"{path}: length {len(a['items'])} != {len(b['items'])}"]
        for i, (x, y) in enumerate(zip(a["items"], b["items"])):
            out += differences(x, y, tol, order, dtypes, f"{path}[{i}] ")
    elif k == "ndarray":
        if dtypes and a["dtype"] != b["dtype"]:
            out.append(f"{path}: dtype {a['dtype']} != {b['dtype']}")
        _cmp_values(path or "array", a["values"], b["values"], tol, out)
    elif k == "number":
        _cmp_values(path or "number", a["values"], b["values"], tol, out)
    else:
        if a["plain"] != b["plain"]:
            out.append(f"{path}: {a['plain']!r} != {b['plain']!r}")
    return out


# ------------------------------------------------------------------ outcomes


def outcome(fn, compute=None, enc=False):
    """('ok', snapshot) or ('err', class name, text) of calling fn()."""
    try:
        r = fn()
        if compute is not None:
            r = compute(r)
        return ("ok", snapshot(r, enc))
    except Exception as exc:  # the library's own refusal is an outcome too
        return ("err", type(exc).__name__, str(exc)[:500])


def outcome_diff(exp, got, tol=(1.0e-9, 0.0), order=True, dtypes=True, text=False):
    if exp[0] != got[0]:
        return [f"expected {brief(exp)}, got {brief(got)}"]
    if exp[0] == "err":
        if exp[1] != got[1]:
            return [f"expected {exp[1]}, got {got[1]}: {got[2][:200]}"]
        if text and exp[2] != got[2]:
            return [f"error text {exp[2][:120]!r} != {got[2][:120]!r}"]
        return []
    return differences(exp[1], got[1], tol, order, dtypes)


def brief(o):
    if o[0] == "err":
        return f"{o[1]}: {o[2][:160]}"
    return f"a {o[1]['kind']}"


def to_plain(obj, compute):
    """Apply `compute` to every lazy object inside a routine's return value."""
    if isinstance(obj, (xr.DataArray, xr.Dataset)):
        return compute(obj)
    if isinstance(obj, tuple):
        return tuple(to_plain(x, compute) for x in obj)
    if isinstance(obj, list):
        return [to_plain(x, compute) for x in obj]
    return obj


def input_diff(before, after):
    """Bit-exact comparison of two snapshots of an input taken with enc=True."""
    return differences(before, after, tol=None, order=True, dtypes=True)
