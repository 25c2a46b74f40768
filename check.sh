#!/bin/bash
# check.sh ID: builds the simulator and the nodes from /repo's working tree, then searches.
# Exit 0: held. Exit 1: VIOLATION. Anything else: no answer.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
"$here/sim/build.sh" || { echo "check.sh: build failed"; exit 3; }
tier="${VERIF_TIER:-quick}"
exec "$here/sim/target/debug/simhost" check "$id" --tier "$tier" --root "$here" "$@"
