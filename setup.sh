#!/bin/bash
# nothing to build: the checks are Python and import the package from the working tree; make sure the interpreter works
cd "$(dirname "$0")" && exec /opt/venv/bin/python -c "import numpy, scipy, h5py, mpi4py; print('ok')"
