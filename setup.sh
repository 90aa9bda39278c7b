#!/bin/bash
# Nothing is built: the checks import /repo's working tree. This verifies that
# the interpreter, hypothesis and the code under test can be imported.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="${AUXI_REPO:-/repo}:$PWD" /opt/venv/bin/python - <<'PY'
import pbt, hypothesis
print('hypothesis', hypothesis.__version__)
PY
