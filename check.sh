#!/bin/bash
# Usage: check.sh <PROPERTY> <quick|thorough>      run one property's check
#        check.sh --replay <file.json>             re-run one saved case
# Everything imported from /repo is taken from its current working tree: no
# stale bytecode and no stale numba cache is ever used (fresh scratch folder).
HERE=$(cd "$(dirname "$0")" && pwd)
SCRATCH=$(mktemp -d /tmp/verif_run.XXXXXX) || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
export VERIF_SCRATCH="$SCRATCH"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX="$SCRATCH/pyc" NUMBA_CACHE_DIR="$SCRATCH/numba"
export HYPOTHESIS_STORAGE_DIRECTORY="$SCRATCH/hyp"
export MPLBACKEND=Agg
[ -d /opt/mplconfig ] && export MPLCONFIGDIR=/opt/mplconfig || export MPLCONFIGDIR="$SCRATCH/mpl"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
# interpreted mode of the numba-decorated functions: same source, no 45 s
# compile; C22 compares with compiled runs in processes of its own.
export NUMBA_DISABLE_JIT=${NUMBA_DISABLE_JIT:-1}
export VERIF_HOME="$HERE" VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$HERE:$HERE/vendor:$VERIF_REPO"
if [ "$1" = --replay ]; then set -- --replay "$(realpath "$2")"; fi
cd "$SCRATCH" || exit 3
/opt/venv/bin/python -W ignore -m vlib.run "$@"
exit $?
