#!/bin/bash
# exit 0: the property holds on this case; nonzero: it is broken
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
