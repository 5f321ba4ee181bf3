#!/bin/bash
# nothing is compiled; fails early if an interpreter or solver the checks need is missing
cd "$(dirname "$0")" || exit 3
/opt/venv/bin/python -c '
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, numpy, scipy, mpi4py, h5py
from engine import terms, sym, npshim, instr
print("verifier ready: z3", z3.get_version_string(), "numpy", numpy.__version__)'
