#!/bin/bash
# Nothing is compiled: the checks run the Python sources in /repo.  Verify that they can.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg
/opt/venv/bin/python -W ignore -c "
import kats, os, sys
w = os.path.realpath(kats.__file__)
print('kats from', w)
sys.exit(not w.startswith('/repo/'))" 2>/dev/null
