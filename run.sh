#!/bin/bash
# run.sh ID            run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
# run.sh replay FILE   re-run a saved failing case
. "$(dirname "$0")/env.sh"
[ "$1" = replay ] && set -- replay "$(realpath "$2")"
cd "$VERIF_DIR/harness" || exit 3
BIN=$(mktemp -d) || exit 3
go build -o "$BIN/vrun" ./cmd/vrun || { rm -rf "$BIN"; exit 3; }
"$BIN/vrun" "$@"
rc=$?
rm -rf "$BIN"
exit $rc
