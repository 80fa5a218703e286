#!/bin/bash
# nothing to compile: the encoding is produced from /repo's source on every run; make sure the pieces are there
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, cvc5, numpy, pandas
print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'pandas', pandas.__version__)
P
