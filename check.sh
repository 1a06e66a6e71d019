#!/bin/bash
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="/repo:$PWD" MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= WANDB_MODE=offline
export NUMBA_CACHE_DIR="${TMPDIR:-/tmp}" OMP_NUM_THREADS=2 MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/ngc-mpl}"
exec /opt/venv/bin/python -W ignore -m harness.main "$@"
