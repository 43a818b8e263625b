#!/bin/bash
# nothing to compile: check that the interpreter, the solver and the code under test are importable
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export JAX_ENABLE_X64=1 TF_CPP_MIN_LOG_LEVEL=3
$PY -c "import symx, z3, jax, netket, GPSKet; print('z3', z3.get_version_string(), 'netket', netket.__version__)"
