#!/bin/bash
# bash run.sh C01 [--tier quick|thorough] [--replay FILE] [--clause NAME --index N]
# Runs one check against the working tree of /repo.
here=$(cd "$(dirname "$0")" && pwd)
unset PYTEST_ADDOPTS NUMBA_DISABLE_JIT
export LANG=C.UTF-8 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO/src:$here"
cd "$here" || exit 3
id=$(echo "$1" | tr 'A-Z' 'a-z'); shift
exec timeout -k 10 880 /opt/venv/bin/python -m "checks.$id" "$@"
