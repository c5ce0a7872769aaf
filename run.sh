#!/bin/sh
# usage: run.sh <property id, lower case> [quick|thorough]
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
py=/opt/venv/bin/python
if ! "$py" -c 'import lib2to3, ast, fractions' >/dev/null 2>&1; then py=python3; fi
exec "$py" "$here/checks/$1.py" --tier "${2:-quick}"
