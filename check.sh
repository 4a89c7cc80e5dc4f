#!/bin/sh
# check.sh <property>: decides one property against /repo (VERIF_TIER=quick|thorough, VERIF_SEED)
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" harness/check.py "$1"
