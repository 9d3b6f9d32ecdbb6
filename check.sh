#!/bin/bash
# Runs one property check (see sx/run.py) against /repo's working tree in the repository's own Python environment.
HERE="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/support/env.sh
write_version || true
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/opt/vp/support:${SX_REPO:-/repo}:$HERE" SX_VT=/opt/veriftools/pyvenv/lib/python3.12/site-packages
export NUMBA_DISABLE_JIT=1 MPLCONFIGDIR=${MPLCONFIGDIR:-/tmp/sx_mpl}
SX_SCRATCH="$(mktemp -d /tmp/sx_run.XXXXXX)"; export SX_SCRATCH
trap 'rm -rf "$SX_SCRATCH"' EXIT
cd "$HERE" || exit 2
timeout -k 10 ${SX_TIMEOUT:-3400} /opt/venv/bin/python -c "
import sys, os
sys.path.append(os.environ['SX_VT'])
from sx.run import main
main()" "$@"
