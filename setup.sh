#!/bin/bash
# Nothing to build: the checks import the code under test from /repo's working tree.  Verify the interpreter and imports.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p "$here/evidence"
scratch="$(mktemp -d)" || exit 1
trap 'rm -rf "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc" MPLBACKEND=Agg MPLCONFIGDIR="$scratch" PYTHONPATH="/repo/src:$here"
"$PY" -c "import numpy, matplotlib, fock_state_circuit, mon.core, mon.gen, mon.ref; print('setup ok')"
