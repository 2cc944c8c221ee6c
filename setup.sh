#!/bin/bash
# Offline set-up: hypothesis (pure test-time dependency) into /verif/.deps, nothing else to build.
cd "$(dirname "$0")" || exit 2
. ./env.sh
python3 -c 'pass' || exit 2
ensure_deps || exit 2
"$PY" - <<'P'
import sys
import hypothesis, numpy, numba, scipy
import conmech
assert list(conmech.__path__)[0].startswith("/repo/"), conmech.__path__
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "numba", numba.__version__)
P
