#!/bin/bash
# usage: run.sh <property> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX=/nonexistent LANG=C.UTF-8 LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONSTARTUP
P="$1"; shift
if [ "$1" = quick ] || [ "$1" = thorough ]; then export VERIF_TIER="$1"; shift; fi
exec /opt/venv/bin/python -m mon "$P" "$@"
