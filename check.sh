#!/bin/bash
# Run one check: check.sh <property> [quick|thorough]; exit 0 held, 1 violated, 2 harness error.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
unset PYTHONPATH
if [ "$1" = "--selftest" ]; then exec /opt/venv/bin/python -m dst.main --selftest; fi
exec /opt/venv/bin/python -m dst.main --property "$1" --tier "${2:-${VERIF_TIER:-quick}}"
