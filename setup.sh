#!/bin/bash
# Nothing to build: the engine is Python and reads /repo at run time. Verify the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python - <<'PY'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, scipy, z3
print("z3", z3.get_version_string(), "numpy", numpy.__version__, "scipy", scipy.__version__)
PY
