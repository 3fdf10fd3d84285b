#!/bin/bash
# setup.sh: builds the compiled modules of the tree once; the checks rebuild whatever differs
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./pyenv.inc
exec "$PY" -c "from sim import env; print(env.build_ext())"
