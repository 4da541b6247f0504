#!/bin/bash
# run.sh <property> [--thorough]: one check, against the working tree of /repo.
# No bytecode is read from or written to /repo or /verif.
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -W ignore check.py "$@"
