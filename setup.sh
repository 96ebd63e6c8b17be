#!/bin/bash
# Nothing to build: check that the interpreter and the code under test import.
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "from mc import drv, core; print('ok', drv.REPO)"
