#!/bin/bash
# check.sh <property-id> [quick|thorough]   |   check.sh replay <file>
# Runs one property check against /repo's working tree (pure Python: nothing to build).
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" LANG=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export JAX_PLATFORMS=cpu NO_GCE_CHECK=true OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="${WBX_REPO:-/repo}:$HERE" PYTHONWARNINGS=ignore
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
cd "$HERE" && exec /opt/venv/bin/python -m wbxv.run "$@"
