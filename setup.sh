#!/bin/bash
# Nothing to build: the checks are plain Python run by /opt/venv/bin/python.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 1
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/shim:$here"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c "import mc.engine, numba; print('ready', numba.__version__)"
