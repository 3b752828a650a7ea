#!/bin/bash
# nothing to build: the checks are Python and import einsteinpy from /repo/src; verify that they can
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="/repo/src:$here" /opt/venv/bin/python -c "import numpy, sympy, mpmath, astropy, einsteinpy, vf.core, vf.ref"
