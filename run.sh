#!/bin/bash
# bash run.sh CNN quick|thorough   |   bash run.sh CNN replay FILE
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
py=/opt/venv/bin/python
[ -x "$py" ] || py=$(command -v python3)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec "$py" -B -m vlib.harness "$@"
