#!/bin/bash
# usage: run.sh PROPERTY_ID   (VERIF_SEED / VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
: "${PY:=/opt/venv/bin/python}"
export PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=0
# more threads than the test-suite uses: thread counts are part of what is checked
export NUMBA_NUM_THREADS=4
exec "$PY" harness/main.py "$@"
