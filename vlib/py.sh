#!/bin/bash
# run a python script in the checks' environment
V=$(cd "$(dirname "$0")/.." && pwd)
INST=$(PYTHONPATH=$V /opt/venv/bin/python -c "from vlib import bootstrap as b; b.ensure_deps(); print(b.ensure_build()[0])") || exit 2
S=$(mktemp -d /tmp/pysh.XXXX)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC OMP_NUM_THREADS=1 MPLBACKEND=Agg VERIF_INST=$INST VERIF_SCRATCH=$S TMPDIR=$S
export PYTHONPATH=$V:$V/standin:$V/.deps:${VERIF_REPO:-/repo}/py_gnome
/opt/venv/bin/python -W ignore "$@"; rc=$?
rm -rf "$S"; exit $rc
