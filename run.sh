#!/bin/sh
# run.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python check.py "$1" --tier "${2:-quick}"
