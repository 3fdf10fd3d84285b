#!/bin/bash
# replay.sh FILE: runs a replay file in a fresh process; exit 1 and a VIOLATION line if it fails again
f=$(readlink -f "$1"); cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./pyenv.inc
exec "$PY" -m sim.check --replay "$f"
