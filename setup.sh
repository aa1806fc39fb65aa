#!/bin/bash
# Nothing is installed: the checks run from the committed files. Build the
# extensions that differ from the recorded ones, if any, and smoke test.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replay .build
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'PY'
import os, sys
sys.path.insert(0, os.getcwd())
from mc import extload, core
print('rebuilt:', extload.ensure(os.path.join(core.VERIF, '.build')))
PY
