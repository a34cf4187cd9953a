#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
export PYTHONPATH=$PWD PYTHONUTF8=1 LC_ALL=C.UTF-8 PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1
exec timeout 280 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
