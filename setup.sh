#!/bin/bash
# the checks are pure Python: nothing to build, only check that the interpreter and pyserial are there
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence replays
exec "$PY" -B -c "import sys, serial; print('python', sys.version.split()[0], 'pyserial', serial.__version__)"
