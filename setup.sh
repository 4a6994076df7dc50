#!/bin/bash
# Nothing is compiled: the checks import /repo's working tree. Make sure that
# what they need is there.
cd "$(dirname "$0")" || exit 1
PY=/opt/veriftools/pyvenv/bin/python3
[ -x "$PY" ] || PY=python3
mkdir -p evidence replays
exec "$PY" -B -c 'import hypothesis, six; print("hypothesis", hypothesis.__version__)'
