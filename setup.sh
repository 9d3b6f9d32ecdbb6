#!/bin/bash
# Nothing to compile: the checks import /repo's sources as they are. Fails early if the environment is not the expected one.
HERE="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/support/env.sh
cd /tmp && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/opt/vp/support:/repo:$HERE" /opt/venv/bin/python -W ignore -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, no_rust_bindings, cratermaker; print('z3', z3.get_version_string())"
