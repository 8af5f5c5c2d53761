#!/bin/bash
# usage: check.sh <property> [quick|thorough] [options]   (see dst/runner.py)
cd "$(dirname "$0")" || exit 2
unset PYTHONSTARTUP PYTHONINSPECT PYTHONWARNINGS
export PYTHONPATH=/repo/src PYTHONHASHSEED="${PYTHONHASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m dst.runner "$@"
