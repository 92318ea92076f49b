#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [harness-substring]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPATH GENERATE_VCDS
ulimit -s unlimited 2>/dev/null || ulimit -s hard 2>/dev/null
exec /opt/venv/bin/python -W ignore -m symhdl "$@"
