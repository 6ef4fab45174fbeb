#!/bin/bash
# bash run.sh C01 [quick|thorough]
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$(dirname "$0")" && exec python run.py "$@"
