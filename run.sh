#!/bin/bash
# ./run.sh P07 [--tier quick|thorough] [--seed N] [--replay FILE]
cd "$(dirname "$0")" || exit 3
W=$(mktemp -d "${TMPDIR:-/tmp}/vrun.XXXXXX") || exit 3
trap 'rm -rf "$W"' EXIT
export TMPDIR="$W" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$W/pyc" PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLCONFIGDIR="$W/mpl" HDF5_USE_FILE_LOCKING=FALSE
export PYTHONPATH=
mkdir -p "$W/mpl"
/opt/venv/bin/python -W ignore -m vlib.base "$@"
rc=$?
exit $rc
