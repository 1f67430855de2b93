#!/bin/bash
# Nothing to build: verifies that the interpreter and libraries are there and
# that the code under test can be imported from the working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '.')
import numpy, scipy, sklearn, cvxpy
print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'sklearn', sklearn.__version__, 'cvxpy', cvxpy.__version__)"
