#!/bin/bash
# Pure Python: nothing to build. Verify that the package imports from /repo.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
export PYTHONPATH="$here:/repo"
mkdir -p "$here/evidence" "$here/replays"
$PY -W ignore -c 'import optbinning, mc.core; print("ok", optbinning.__file__)' 2>/dev/null
