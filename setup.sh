#!/bin/bash
# Nothing to build: checks that the interpreter and the library import from /repo's working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd /tmp && PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$here:${VMON_REPO:-/repo}" /opt/venv/bin/python -W ignore -c "import PyCTBN, vmon.core, vmon.ref, vmon.gen; print(PyCTBN.__file__)"
