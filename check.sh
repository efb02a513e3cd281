#!/bin/bash
# usage: check.sh --property ID | --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED="${VSIM_HASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 NUMBA_THREADING_LAYER=workqueue
exec "${VSIM_PYTHON:-/opt/venv/bin/python}" -m vsim.run "$@"
