import numpy as np, xarray as xr, sys, os
import dask; dask.config.set(scheduler="synchronous")
import momlevel
from momlevel import *
from momlevel.test_data import generate_test_data, generate_test_data_dz, generate_test_data_uv
from momlevel.test_data.time import generate_time_stub
def fail(msg): print("BROKEN:", msg); sys.exit(1)
def same(a, b, what):
    a = a.compute(); b = b.compute()
    try: xr.testing.assert_allclose(a, b, rtol=1e-9, atol=0)
    except AssertionError as e: fail(what + str(e)[:200])
def scale(ds):
    ds = ds.copy()
    ds["areacello"] = ds["areacello"] * (3.6111092e14 / float(ds["areacello"].sum()))
    return ds

import cftime
a = generate_time_stub(nyears=1)
t0 = a["average_T1"].values[0]
a["average_T1"].values[...] = cftime.datetime(1, 1, 1, calendar="noleap")
b = generate_time_stub(nyears=1)
if b["average_T1"].values[0] != t0: fail("editing one stub changed the next one")
