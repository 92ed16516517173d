#!/bin/bash
# check.sh <property> [quick|thorough] [extra args]
set -u
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
unset PYTHONPATH
pid="$1"; tier="${2:-quick}"; shift; shift 2>/dev/null
exec /opt/venv/bin/python engine/run.py check "$pid" --tier "$tier" "$@"
