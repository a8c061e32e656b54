#!/bin/bash
# run.sh <property id> [quick|thorough]   -- decides one property on /repo's current working tree
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export OPENBLAS_CORETYPE=Haswell NPY_DISABLE_CPU_FEATURES="X86_V4 AVX512_ICL AVX512_SPR"
scratch=$(mktemp -d /tmp/mc.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export PYTHONPYCACHEPREFIX="$scratch/pyc" MC_SCRATCH="$scratch" PYTHONPATH="/repo/src:$here"
cd "$here" || exit 2
/opt/venv/bin/python -m mc.run "$@"
exit $?
