#!/bin/sh
# Nothing is compiled: verifies that the interpreters and solvers are there.
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python - <<'PY'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, z3, cvc5
print("python", sys.version.split()[0], "numpy", numpy.__version__, "z3", z3.get_version_string(), "cvc5", cvc5.__version__)
PY
