#!/bin/bash
# py.sh SCRIPT: run a script in the checks' environment (development aid)
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/vmon.XXXXXX); trap 'rm -rf "$work"' EXIT
export PYTHONPATH=${REPO:-/repo}/src:$here PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR="$work" PYTHONPYCACHEPREFIX="$work/pyc" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
/opt/venv/bin/python -W ignore "$@"
