#!/bin/bash
# nothing to build: checks that the interpreter, the solver binding and the engine load
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" && PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "from engine import ctx, rt, stubs; print('engine ok')"
