#!/bin/bash
# replay.sh <replay file>: reproduce a reported violation
f="$(realpath "$1")"
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" TZ=UTC LC_ALL=C.UTF-8
export DSIM_REPO="${DSIM_REPO:-/repo}" DSIM_SRC="${DSIM_REPO:-/repo}/src/momlevel"
exec /opt/venv/bin/python -m dsim replay "$f"
