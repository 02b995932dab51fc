#!/bin/bash
# Usage: check.sh <property id> | check.sh --replay <file>
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export MPLCONFIGDIR="${MPLCONFIGDIR:-/opt/venv/mplconfig}"
exec /opt/venv/bin/python -m pbt.core "$@"
