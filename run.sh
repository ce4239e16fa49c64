#!/bin/bash
# usage: run.sh <property id> [--tier quick|thorough] [--replay FILE] [--seed N] [--sub NAME]
# Runs the generated-input check of one property against the code in /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH PYTHONSTARTUP PYTHONOPTIMIZE
cd "$here" || exit 2
exec python3-vt -B -m pbt.main "$@"
