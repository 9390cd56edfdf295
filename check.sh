#!/bin/bash
# check.sh <property> [quick|thorough] [more arguments of run_check.py]
# Runs the monitors of one property on the library in /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; shift
tier=${VERIF_TIER:-quick}
case "$1" in quick|thorough) tier=$1; shift;; esac
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LANG=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH PYTHONHOME
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
# no stale byte code: compile from the working tree every time
export PYTHONPYCACHEPREFIX=$work/pyc PYORB_SCRATCH=$work MPLCONFIGDIR=$work
cd "$work" || exit 2
/opt/venv/bin/python "$here/run_check.py" "$prop" --tier "$tier" "$@"
