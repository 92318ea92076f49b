#!/bin/bash
# nothing to build: check that the interpreter, Amaranth and z3 are there and that the translator loads
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence
/opt/venv/bin/python -W ignore - <<'P'
import sys
sys.path.insert(0, "."); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import amaranth, z3, symhdl.runner, symhdl.compile
print("amaranth", amaranth.__version__, "z3", z3.get_version_string())
P
exec /opt/venv/bin/python -W ignore -m symhdl selftest 100
