#!/bin/bash
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PROJ_NETWORK=OFF
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLCONFIGDIR="${TMPDIR:-/tmp}/vf_mpl_$$"
trap '[ -d "$MPLCONFIGDIR" ] && find "$MPLCONFIGDIR" -delete' EXIT
/opt/venv/bin/python -W ignore harness/check.py "$@"
