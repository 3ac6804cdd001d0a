#!/bin/bash
# run.sh ID [--replay FILE] [--tier T] [--seed N]: run one check against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
work=$(mktemp -d /tmp/vmon.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/mpl" "$work/pyc" "$work/scratch"
export PYTHONPATH=/repo/src:$here PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg MPLCONFIGDIR="$work/mpl" PYTHONPYCACHEPREFIX="$work/pyc"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VMON_SCRATCH="$work/scratch" VMON_HOME="$here"
cd "$work/scratch" || exit 3
/opt/venv/bin/python -W ignore -m vmon.runner "$@"
