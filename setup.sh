#!/bin/bash
# Nothing to build; verifies that the interpreter, z3 and empymod are there.
cd "$(dirname "$0")" || exit 1
export NUMBA_CACHE_DIR=$(mktemp -d) PYTHONDONTWRITEBYTECODE=1
trap 'rm -rf "$NUMBA_CACHE_DIR"' EXIT
/opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, '.')
import z3
from symx import load
print('z3', z3.get_version_string(), 'empymod', load.empymod.__version__)
P
