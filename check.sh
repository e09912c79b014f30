#!/bin/bash
# check.sh ID [quick|thorough]: builds the checker against /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 3
ID=${1:?usage: check.sh ID [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
. ./env.sh
build_for "$ID" || exit 3
if [ -z "$BIN" ]; then
	build_plain || exit 3
	exec ./harness/bin/mc undecided "$ID" "$TIER" "the instrumented copy of the code does not build"
fi
exec ./harness/bin/$BIN run "$ID" "$TIER"
