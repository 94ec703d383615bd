#!/bin/bash
# usage: check.sh <ID> [--replay FILE]   (tier from VERIF_TIER, seed from VERIF_SEED)
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/venv/bin:$PATH PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 \
  TZ=UTC LANG=C.UTF-8 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 HDF5_USE_FILE_LOCKING=FALSE
export PYTHONPATH="${VERIF_REPO:-/repo}:$here"
cd "$here" && exec /opt/venv/bin/python -W ignore -m harness.runner "$@"
