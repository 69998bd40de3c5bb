#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough] | check.sh PROPERTY replay FILE
# Runs one runtime-monitoring check against the code in /repo's working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
scratch="$(mktemp -d)" || exit 3
trap 'rm -rf "$scratch"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export PYTHONPYCACHEPREFIX="$scratch/pyc"
export MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="${FSC_REPO:-/repo}/src:$here"
export TMPDIR="$scratch"
mkdir -p "$scratch/mpl"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
cd "$scratch" || exit 3
"$PY" -X faulthandler -m mon.main "$@"
