#!/bin/bash
# check.sh <ID> [--thorough] [-v]: one property check against /repo's tree.
cd "$(dirname "$0")" || exit 3
WORK=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 3
trap 'rm -rf "$WORK"' EXIT
mkdir "$WORK/numba" "$WORK/mpl" "$WORK/tmp"
export NUMBA_CACHE_DIR=$WORK/numba MPLCONFIGDIR=$WORK/mpl TMPDIR=$WORK/tmp
export PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMBA_NUM_THREADS=1
unset PYTHONPATH NUMBA_DISABLE_JIT
/opt/venv/bin/python run_check.py "$@"
exit $?
