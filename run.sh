#!/bin/bash
# usage: run.sh C01 [--replay FILE | --case N]     (VERIF_SEED, VERIF_TIER from the environment)
# Imports nessaid_cli straight from /repo's working tree: nothing is cached, nothing is written there.
cd "$(dirname "$0")" || exit 9
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TERM=dumb
export PYTHONPYCACHEPREFIX=/nonexistent-pycache PYTHONWARNINGS=ignore
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore harness/check.py "$@"
