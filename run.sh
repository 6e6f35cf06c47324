#!/bin/bash
# usage: run.sh <property id> [quick|thorough]   or   run.sh --replay FILE   or   run.sh --setup
# Runs one property check against the working tree in /repo.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 3
export HOME=${HOME:-/root}
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 SETUPTOOLS_SCM_PRETEND_VERSION=1.0.0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export TZ=UTC LC_ALL=C.UTF-8
unset NUMBA_NUM_THREADS NUMBA_DISABLE_JIT
exec /opt/venv/bin/python -m vh.main "$@"
