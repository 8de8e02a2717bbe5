#!/bin/bash
# check.sh <property> [args]: run one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" TZ=UTC LC_ALL=C.UTF-8
export DSIM_REPO="${DSIM_REPO:-/repo}"
export DSIM_SRC="$DSIM_REPO/src/momlevel"
unset PYTHONWARNINGS
exec /opt/venv/bin/python -m dsim check "$@"
