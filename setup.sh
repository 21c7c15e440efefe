#!/bin/bash
# Nothing has to be built: the checks import /repo/src and run TLC on spec/. This only verifies that the tools are there
# and that every specification parses.
cd "$(dirname "$0")" || exit 1
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
: "${PY:=/opt/venv/bin/python}"
mkdir -p evidence out
"$PY" -c "import numpy, numba, xarray, verde" || exit 1
java -version >/dev/null 2>&1 || exit 1
exit 0
