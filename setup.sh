#!/bin/bash
# nothing to build: check that the tools are there and the specifications parse
cd "$(dirname "$0")/specs" || exit 2
mkdir -p ../out ../evidence
command -v java >/dev/null || { echo "java not found"; exit 2; }
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
"$PY" -c 'import numpy, scipy' || exit 2
exit 0
