#!/bin/bash
# run.sh <property> [--replay FILE | --only STRATUM,...]: runs one check against /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUNBUFFERED=1
export PYTHONPATH="$here/lib:${RKV_REPO:-/repo}"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3-vt
exec "$py" "$here/checks/$(echo "$id" | tr 'A-Z' 'a-z').py" "$@"
