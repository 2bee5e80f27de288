#!/bin/sh
# Nothing to build: the specifications and the harness run from source.  Parse every specification and import the harness.
set -e
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, scipy, sympy, ufl, petsc4py, mpi4py"
d=$(mktemp -d)
for m in spec/MC*.tla; do
  (cd spec && java -Djava.io.tmpdir="$d" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$m")" >"$d/out" 2>&1) || { cat "$d/out"; exit 1; }
done
rm -rf "$d"
echo "setup done"
