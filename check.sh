#!/bin/bash
# check.sh ID quick|thorough | check.sh ID replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$here"
exec /opt/venv/bin/python "$here/engine/run.py" "$@"
