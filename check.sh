#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's working tree
# check.sh --replay <file>               run one recorded case again
cd "$(dirname "$0")" || exit 3
export PATH=/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8 TZ=UTC PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=
export MPLCONFIGDIR="${TMPDIR:-/tmp}/verif-mpl"
exec /opt/venv/bin/python -W ignore harness/main.py "$@"
