#!/bin/bash
# bash /verif/run.sh <PROPERTY> [--replay FILE]
# Tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED.
set -u
cd "$(dirname "$(readlink -f "$0")")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m vp.runner "$@"
