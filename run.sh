#!/bin/bash
# run.sh <property id> [--tier quick|thorough]   run one check against /repo's working tree
# run.sh replay <artefact>                        re-execute one recorded counterexample
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
export PYTHONPATH="/repo/src:$HERE"
export PYTHONWARNINGS=ignore
cd "$HERE" || exit 2
exec /opt/venv/bin/python -B -m mc.run "$@"
