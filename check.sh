#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
P=$1; shift
if [ "$1" = quick ] || [ "$1" = thorough ]; then export VERIF_TIER=$1; shift; fi
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore mc/run.py "$P" "$@"
