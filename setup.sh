#!/bin/bash
# nothing to compile: only makes sure that the code under test can be imported
cd "$(dirname "$0")" && mkdir -p evidence replays .cache && exec /opt/venv/bin/python -c 'import numpy, numba, traits, tables, h5py'
