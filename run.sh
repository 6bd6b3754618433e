#!/bin/bash
# run.sh <check-module> quick|thorough|replay <file>: runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 3
export HOME=${HOME:-/root} LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONHASHSEED=0 MPLBACKEND=Agg
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 NUMBA_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export CARGO_NET_OFFLINE=true HDF5_USE_FILE_LOCKING=FALSE
export PYTHONPATH=$PWD
exec /opt/venv/bin/python -m lib.vh "$@"
