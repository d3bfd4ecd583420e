#!/bin/bash
# Nothing to compile: check that the code under test and the harness import.
cd "$(dirname "$0")" || exit 1
export PYTHONPATH="$PWD:/repo/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
M=$(mktemp -d /tmp/hv-setup-XXXXXX); export MPLCONFIGDIR=$M
$PY -W ignore -c "import hera_pspec, hv.core, hv.gen; print('ok', hera_pspec.__file__)"; rc=$?
rm -rf "$M"
exit $rc
