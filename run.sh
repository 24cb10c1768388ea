#!/bin/bash
# run.sh <id> [args]: run one property's check against /repo's current working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg TZ=UTC
export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/vp/mplconfig} OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH
id=$1; shift
exec /opt/venv/bin/python -W ignore "checks/${id,,}.py" "$@"
