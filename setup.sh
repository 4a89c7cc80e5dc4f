#!/bin/sh
# compiles the Java override of BigInt.tla
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c 'import sys; sys.path.insert(0, "harness"); import common; common.ensure_built()'
