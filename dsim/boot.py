"""Import the code under test from /repo's working tree, with seams in place."""

import os
import sys
import warnings

SRC = os.environ.get("DSIM_REPO", "/repo") + "/src"


def boot():
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    sys.path.insert(0, SRC)
    # third-party modules first, so that only the package's own locks are simulated
    import cftime  # noqa: F401
    import cloudpickle  # noqa: F401
    import dask.array  # noqa: F401
    import netCDF4  # noqa: F401
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import sklearn.neighbors  # noqa: F401
    import xarray  # noqa: F401
    import xgcm  # noqa: F401

    from . import threads

    threads.install_locks()
    import momlevel

    where = os.path.realpath(momlevel.__file__)
    if not where.startswith(os.path.realpath(SRC) + os.sep):
        raise SystemExit(f"momlevel was imported from {where}, not from {SRC}")
    warnings.simplefilter("ignore")
    _warm()


def _warm():
    """Let the dependencies finish their lazy imports, without the package."""
    import dask
    import dask.array as da
    import numpy as np
    import xarray as xr

    x = xr.Dataset({"a": (("t", "y"), np.arange(6.0).reshape(3, 2))}, coords={"t": [0, 1, 2], "y": [0.0, 1.0]})
    with dask.config.set(scheduler="sync"):
        y = x.chunk({"t": 1})
        (y.a * 2).sum("t").compute()
        y.a.polyfit("t", 1).compute()
        x.a.polyfit("t", 1)
        y.a.ffill("t").compute()
        x.a.differentiate("y")
        x.to_dataframe()
        repr(y), repr(x)
        t = xr.cftime_range("2000-01-01", periods=24, freq="MS", calendar="noleap")
        z = xr.DataArray(np.arange(24.0), dims="time", coords={"time": t}, name="z")
        z.groupby("time.year").mean().load()
        z.weighted(z.time.dt.days_in_month).mean()
        da.ones(4, chunks=2).map_overlap(lambda b: b, depth=1, boundary="none", dtype=float).compute()
        import tempfile, os

        p = os.path.join(os.environ["DSIM_SCRATCH"], "warm.nc")
        x.to_netcdf(p)
        with xr.open_dataset(p) as q:
            q.load()
        os.remove(p)
    import gc

    gc.collect()
    gc.freeze()  # forked runs neither scan nor copy what was imported
