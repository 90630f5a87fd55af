#!/bin/sh
# Nothing is compiled: the specification is run by the installed TLC and the harness by the installed Python.
set -e
cd "$(dirname "$0")"
test -r /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import numpy, numba, netCDF4, zarr"
mkdir -p evidence
python3 -c "import sys; sys.dont_write_bytecode = True; import check; print(len(check.REGISTRY), 'checks')"
