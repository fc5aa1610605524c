#!/bin/bash
# Usage: run.sh <property-id> [quick|thorough]      run one check
#        run.sh --replay <file>                     re-run one recorded case
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
export PATH=/opt/venv/bin:$PATH VIRTUAL_ENV=/opt/venv
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
unset PYTHONPATH PYTHONPYCACHEPREFIX
export MPLBACKEND=Agg RAY_USAGE_STATS_ENABLED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export FOXES_REPO="${FOXES_REPO:-/repo}"
cd "$HERE" || exit 2
exec /opt/venv/bin/python -W ignore -m harness.main "$@"
