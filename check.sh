#!/bin/sh
# usage: check.sh PROPERTY [options]   (run in /verif)
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH
exec /opt/pypyvenv/bin/python symx/run.py "$@"
