#!/bin/bash
# usage: check.sh <property id> [--replay FILE] [--tier quick|thorough] [--seed N]
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$here:${LIE_NN_REPO:-/repo}"
cd "$here" || exit 2
exec /opt/venv/bin/python -B -W ignore -m vm.run "$@"
