#!/bin/bash
# replay.sh FILE: re-executes a recorded violation against /repo's working tree
FILE=$(realpath "${1:?usage: replay.sh FILE}") || exit 2
cd "$(dirname "$0")" || exit 3
. ./env.sh
ID=$(sed -n 's/.*"property": *"\([^"]*\)".*/\1/p' "$FILE" | head -1)
build_for "$ID" && [ -n "$BIN" ] || exit 3
VERIF_SCRATCH=$(mktemp -d) exec ./harness/bin/$BIN replay "$FILE"
