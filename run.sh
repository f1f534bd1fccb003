#!/bin/bash
# run.sh <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] [--law NAME] [--scale X]
# Runs one property's check against /repo's current working tree.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${PHASOR_REPO:-/repo}
TMP_OWN=$(mktemp -d /tmp/vphasor.XXXXXX) || exit 3
trap 'rm -rf "$TMP_OWN"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export TMPDIR="$TMP_OWN" PYTHONPYCACHEPREFIX="$TMP_OWN/pyc" MPLCONFIGDIR="$TMP_OWN/mpl" IPYTHONDIR="$TMP_OWN/ipython"
export PYTHONPATH=/opt/vp/compat:$REPO:$HERE PHASOR_REPO="$REPO"
cd "$HERE" || exit 3
/opt/venv/bin/python -m vlib.runner "$@"
exit $?
