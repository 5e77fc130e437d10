#!/bin/bash
# run.sh <property-id> [--replay FILE]: run one check against /repo's working tree.
# The code under test is pure Python: "building" it means importing it afresh
# from /repo with an empty bytecode cache, so every run sees the current tree.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
WORK=$(mktemp -d "${TMPDIR:-/tmp}/rvmon.XXXXXX") || exit 3
trap 'rm -rf -- "$WORK"' EXIT
export PYTHONPYCACHEPREFIX="$WORK/pyc" RVMON_WORK="$WORK"
/opt/venv/bin/python -W ignore -m rvmon "$@"
