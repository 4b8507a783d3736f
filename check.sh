#!/bin/bash
# one property check: bash check.sh P06 [--replay FILE]; rebuilds everything from /repo's current sources
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg JAX_PLATFORMS=cpu
export OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=2 TF_CPP_MIN_LOG_LEVEL=3
cd /tmp || exit 3
exec /opt/venv/bin/python "$here/run.py" "$@"
