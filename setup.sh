#!/bin/bash
# nothing to build: checks that the interpreter, z3 bindings and cvc5 are there
cd "$(dirname "$(readlink -f "$0")")" || exit 1
/opt/venv/bin/python -W ignore - <<'PY' || exit 1
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, numpy
print("z3", z3.get_version_string(), "numpy", numpy.__version__)
PY
cvc5 --version | head -1
