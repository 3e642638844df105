#!/bin/bash
# bash run.sh <property id> [quick|thorough]   (run from anywhere; judges the code in /repo)
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_REPO="${VERIF_REPO:-/repo}"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu MPLBACKEND=Agg
export PYTHONPATH="$VERIF_REPO:$HERE/lib" OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2
export TF_CPP_MIN_LOG_LEVEL=3 HDF5_USE_FILE_LOCKING=FALSE
unset JAX_ENABLE_X64
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" "$HERE/checks/$1.py" "${@:3}"
