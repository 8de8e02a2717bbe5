#!/bin/bash
# nothing to build: checks that the interpreter and the tree under test can be imported
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo/src" /opt/venv/bin/python -c 'import momlevel, dask, xarray, netCDF4; print("ok", momlevel.__file__)'
