#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [--replay FILE]
# Runs the check of one property against the working tree in ${VERIF_REPO:-/repo}.
cd "$(dirname "$0")" || exit 3
export LANG=C.UTF-8 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python run.py "$@"
