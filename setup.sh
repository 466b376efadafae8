#!/bin/bash
# Offline: unpack hypothesis next to the machinery, for the interpreter of the code under test.
cd "$(dirname "$0")" || exit 1
if [ ! -d .deps/hypothesis ]; then
  /opt/venv/bin/python -m pip install -q --no-index --find-links /opt/veriftools/wheels --no-deps --target .deps hypothesis sortedcontainers \
    || rm -rf .deps
fi
/opt/venv/bin/python - <<'P'
import sys; sys.path.insert(0, ".")
from vf.boot import boot
boot()
import hypothesis, numpy, pandas, ruleskit
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "pandas", pandas.__version__, ruleskit.__file__)
P
