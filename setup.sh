#!/bin/bash
# Nothing to build: phasor is pure Python. Confirms that the interpreter, hypothesis and phasor import.
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/compat:${PHASOR_REPO:-/repo}:$HERE
cd "$HERE" && /opt/venv/bin/python -c "import vlib.core, phasor.system, phasor.optics, phasor.electronics; print('ok')"
