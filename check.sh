#!/bin/bash
# usage: check.sh <module> [--replay FILE] [-v]
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
export PYTHONPATH="$here:${VERIF_REPO:-/repo}"
cd "$here" || exit 1
exec $PY -W ignore -c 'from mc.core import entry; entry()' "$@"
