#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough]   (VERIF_SEED, VERIF_TIER honoured)
D="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B "$D/lib/vf/main.py" "$@"
