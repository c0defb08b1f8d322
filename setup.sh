#!/bin/sh
# nothing to build: the checks instrument /repo's source on every run
cd "$(dirname "$0")" || exit 2
PY=/opt/veriftools/pyvenv/bin/python3
[ -x "$PY" ] || PY=python3-vt
exec "$PY" -c 'import z3; print("z3", z3.get_version_string())'
