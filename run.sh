#!/bin/bash
# bash run.sh <property> [--replay FILE]: runs one check against /repo's tree.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$here/shim:$here:${VERIF_REPO:-/repo}"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m mc.main "$@"
