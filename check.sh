#!/bin/bash
# check.sh PROPERTY [options]: see run.py
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore run.py "$@"
