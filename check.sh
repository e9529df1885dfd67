#!/bin/bash
# bash check.sh C01 | bash check.sh --replay FILE | bash check.sh --digest C01
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}" PYTHONWARNINGS=ignore
export PYTHONPYCACHEPREFIX=/dev/shm/vsim-nopyc-$$
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
exec /opt/venv/bin/python -B -m sim.runner "$@"
