#!/bin/bash
# run.sh <property> [quick|thorough] [args] : one check, with the interpreter POT is installed for
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
p=$1; shift
tier=quick
case "$1" in quick|thorough) tier=$1; shift;; esac
export VERIF_TIER=$tier
exec /opt/venv/bin/python -W ignore -m mc "$p" --tier "$tier" "$@"
