#!/bin/bash
# usage: check.sh <property id> [--replay FILE]
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec "$PY" -B run.py "$@"
