#!/bin/bash
# usage: run.sh <property id> [--replay file | --only scenario]
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export TF_CPP_MIN_LOG_LEVEL=3 JAX_ENABLE_X64=1 NUMBA_CACHE_DIR="${NUMBA_CACHE_DIR:-/tmp/verif-numba-$$}"
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0 intra_op_parallelism_threads=1"
$PY run_check.py "$@"
rc=$?
rm -rf "/tmp/verif-numba-$$"
exit $rc
