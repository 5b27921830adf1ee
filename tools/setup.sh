#!/bin/bash
# the checks are interpreted; make sure that the interpreter and Z3 load
cd "$(dirname "$0")/.." || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from symex import core, nparr, shims, memstore, loader, harness
x = core.z3.Int('x'); s = core.z3.Solver(); s.add(x > 2, x < 4)
assert str(s.check()) == 'sat'
print('z3', core.z3.get_version_string())
"
