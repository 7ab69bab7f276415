#!/bin/bash
# Nothing is compiled: the checks import /repo's working tree.  This verifies the interpreter and the imports.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3-vt
export OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/lib:${RKV_REPO:-/repo}"
"$py" -c 'import numpy, scipy; from rkv import pkg, ref, gen, probe, harness; print("setup ok: numpy", numpy.__version__, "scipy", scipy.__version__, pkg.rkstiff.__file__)'
