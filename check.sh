#!/bin/bash
# check.sh <property> [--replay FILE] [--tier quick|thorough] [--seed N]
# Runs the monitors of one property against the working tree of /repo.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_REPO=${VERIF_REPO:-/repo}
unset PYTHONPATH
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore::SyntaxWarning "$here/run.py" "$@"
