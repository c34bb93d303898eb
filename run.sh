#!/bin/bash
# run.sh <property> quick|thorough          run a check
# run.sh <property> replay <replay.json>    re-execute a reported failure
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m harness "$@"
