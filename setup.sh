#!/bin/bash
# Nothing to compile: check that the interpreter, Hypothesis and the target can be imported.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
py=/opt/veriftools/pyvenv/bin/python
[ -x "$py" ] || py=python3-vt
PYTHONDONTWRITEBYTECODE=1 exec "$py" -c "
import sys; sys.path.insert(0, '$here/lib')
import hypothesis, pbt
print('hypothesis', hypothesis.__version__, 'target', pbt.load_target().__file__)"
