#!/bin/bash
# Nothing to compile: the vendored Hypothesis and the interpreter must import.
cd "$(dirname "$(readlink -f "$0")")"
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=vendor exec "$PY" -c 'import hypothesis, pandas, numpy, scipy, sqlite3; print("ok", hypothesis.__version__)'
