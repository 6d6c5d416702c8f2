#!/bin/bash
# run.sh <check> [args]  - runs one check of this framework against the working tree of /repo
HERE=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/lib/env.sh ] && . /opt/vp/lib/env.sh
export VP_REPO=${VP_REPO:-/repo}
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 EIGEN3_PATH=${EIGEN3_PATH:-/usr/include/eigen3}
export YLEARN_LOG_LEVEL=ERROR
export PYTHONPATH=$VP_REPO:$HERE/lib:$HERE/checks PYTHONWARNINGS=ignore
PY=${PY:-/opt/venv/bin/python}
cd "$HERE" || exit 2
id=$1; shift
exec $PY "$HERE/checks/$id.py" "$@"
