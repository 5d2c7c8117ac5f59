#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [extra options of harness.main check]
# Runs the generated-input search for one property against the working tree of /repo.
cd "$(dirname "$0")" || exit 2
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
PY=/opt/venv/bin/python
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
exec "$PY" -m harness.main check "$id" --tier "$tier" "$@"
