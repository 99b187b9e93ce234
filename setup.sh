#!/bin/sh
# Nothing to build: the encoding is generated from /repo's source by each run.
# Checks that the interpreter and the solver the checks rely on are there.
cd "$(dirname "$0")" || exit 1
unset PYTHONPATH
exec /opt/pypyvenv/bin/python - <<'PY'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
x = z3.Int("x")
s = z3.Solver()
s.add(x > 1, x < 3)
assert s.check() == z3.sat and s.model()[x].as_long() == 2
print("z3", z3.get_version_string(), "python", sys.version.split()[0])
PY
