#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [--replay FILE]
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LC_ALL=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMBA_NUM_THREADS=${MC_NUMBA_THREADS:-1} NUMBA_THREADING_LAYER=workqueue
exec /opt/venv/bin/python -W ignore "$here/mc/run.py" "$@"
