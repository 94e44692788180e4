#!/bin/bash
# check.sh P01 [quick|thorough]: decide one property on /repo's current working tree
set -u
cd "$(dirname "$0")"
export LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH MPLCONFIGDIR
export VERIF_SEED="${VERIF_SEED:-1}"
[ $# -ge 2 ] && export VERIF_TIER="$2"
export VERIF_TIER="${VERIF_TIER:-quick}"
exec /opt/venv/bin/python -B harness/main.py "$1"
