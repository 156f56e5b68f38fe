#!/bin/bash
# Nothing is built: checks that the interpreters and solvers are present.
set -e
cd "$(dirname "$0")/.."
python3-vt -c "import z3, sympy"
/opt/venv/bin/python -c "import numpy, scipy, pandas, stl"
mkdir -p evidence replays
