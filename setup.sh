#!/bin/bash
# Nothing to install: the checks import /repo's working tree. Makes sure the interpreter and the tree are usable.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence replays build
exec /opt/venv/bin/python -c "import numpy, xarray, numba, uxarray, yaml; print('ready')"
