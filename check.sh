#!/bin/bash
# Entry point: check.sh <property> [tier]   |  check.sh replay <file>  |  check.sh selftest
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LC_ALL=C.UTF-8 PYTHONIOENCODING=utf-8 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export PYTHONHASHSEED="${SIM_HASHSEED:-0}"
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export SIM_REPO="${SIM_REPO:-/repo}"
export PYTHONPATH="$here:$SIM_REPO"
unset DISPLAY TRAVIS
cd "$here" || exit 2
exec /opt/venv/bin/python -m sim.main "$@"
