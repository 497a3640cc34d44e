#!/bin/bash
# bash check.sh C03 | bash check.sh replay FILE    (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$(realpath "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPATH
PY=${VERIF_PY:-/opt/veriftools/pyvenv/bin/python}
if [ "$1" = replay ] || [ "$1" = case ]; then exec "$PY" vf/run.py "$@"; fi
exec "$PY" vf/run.py check "$1"
