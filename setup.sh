#!/bin/bash
# Nothing to build: checks the interpreters and that the library and every property module load.
cd "$(dirname "$(realpath "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
/opt/veriftools/pyvenv/bin/python - <<'PY' || exit 2
import sys
sys.path.insert(0, '.')
import json, hypothesis
from vf import registry
n = 0
for c in json.load(open('MANIFEST.json'))['checks']:
    n += len(registry.load(c['property']))
print('hypothesis', hypothesis.__version__, 'facets', n)
PY
cd /repo/products && PYTHONPYCACHEPREFIX=/nonexistent/pycache /opt/pypyenv/bin/python -W ignore -c \
  "import ellipy.elltool.core.core, numpy; print('library loads, numpy', numpy.__version__)"
