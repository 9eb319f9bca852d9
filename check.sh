#!/bin/bash
# usage: check.sh PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
# Runs the monitors of one property against the working tree of /repo (RV_REPO overrides, for scratch copies).
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH= PYTHONPYCACHEPREFIX=/nonexistent/pycache
exec /opt/venv/bin/python -B rv/run.py "$@"
