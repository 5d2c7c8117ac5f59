#!/bin/bash
# Nothing has to be built: the harness is Python and imports the library from /repo.
# This only verifies that the interpreter, Hypothesis and the library can be loaded.
cd "$(dirname "$0")" || exit 2
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
mkdir -p evidence
exec /opt/venv/bin/python -c "
from harness import boot
boot.setup()
import hypothesis, numpy, doatools
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, doatools.__file__)"
