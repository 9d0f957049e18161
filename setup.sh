#!/bin/bash
# Checks that the tools the framework needs are there; nothing has to be built.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 3
export PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1
exec /opt/veriftools/pyvenv/bin/python - <<'PY'
import sys
import hypothesis, sympy, networkx
sys.path.insert(0, "/repo")
import rosemary
from pbt import core, registry
print("hypothesis", hypothesis.__version__, "properties", len(registry.MODULE))
PY
