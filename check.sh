#!/bin/bash
# check.sh PROPERTY [options]: runs one check with the environment every run uses
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./pyenv.inc
exec "$PY" -m sim.check "$@"
