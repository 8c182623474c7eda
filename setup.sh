#!/bin/bash
# nothing has to be built: the checks read /repo's Python source on every run.  Check the tools.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
python3-vt - <<'P'
import z3, sympy
print('z3', z3.get_version_string(), 'sympy', sympy.__version__)
P
cvc5 --version | head -1
[ -f selftest.py ] && python3-vt selftest.py || true
