#!/bin/bash
# check.sh PROPERTY: runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
export PYTHONHASHSEED=0
exec /opt/venv/bin/python harness/check.py "$@"
