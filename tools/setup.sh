#!/bin/bash
# Nothing to build: the checks are Python run by the repository's interpreter.  Verify that it works.
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence replays
/opt/venv/bin/python -c 'import numpy, scipy, numba, h5py, yaml' || exit 1
