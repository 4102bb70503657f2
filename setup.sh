#!/bin/bash
# nothing is compiled ahead of time: every check reads /repo's current source.  Verify that the tools are there.
set -e
/opt/venv/bin/python -c "import numpy, scipy, numba, sympy"
/opt/veriftools/pyvenv/bin/python3 -c "import z3, numpy, networkx"
mkdir -p "$(dirname "$0")/evidence" "$(dirname "$0")/out"
