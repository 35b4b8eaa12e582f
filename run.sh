#!/bin/bash
# run.sh PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONHASHSEED=0 LANG=C.UTF-8 LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH PYTHONHOME VIRTUAL_ENV
exec /opt/vp/venv/bin/python lib/framework.py "$@"
