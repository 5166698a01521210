#!/bin/bash
# run.sh <property id> <quick|thorough> [--replay FILE]
cd "$(dirname "$0")" || exit 2
ID=${1:?property id}; TIER=${2:-${VERIF_TIER:-quick}}; shift 2
export HOME=${HOME:-/root} LANG=C.UTF-8
unset PYTHONPATH PYTHONHOME LD_PRELOAD
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export OMP_WAIT_POLICY=passive GOMP_SPINCOUNT=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=2
export VERIF_TIER=$TIER
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" "checks/$(echo "$ID" | tr A-Z a-z).py" "$TIER" "$@"
