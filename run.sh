#!/bin/bash
# run.sh <property> <quick|thorough> [harness...]   |   run.sh replay <file>
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/vmc.XXXXXX)"
trap 'rm -rf -- "$scratch"' EXIT
export VMC_SCRATCH="$scratch" VMC_REPO="${VMC_REPO:-/repo}"
export PYTHONPATH="$here" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export NUMBA_CACHE_DIR="$scratch/numba" HOME="$scratch" TQDM_DISABLE=1
cd "$here"
/opt/venv/bin/python -W ignore -m vmc.main "$@"
