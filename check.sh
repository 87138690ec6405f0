#!/bin/bash
# check.sh <ID> [quick|thorough]: builds the checker from /repo's current tree and decides one property.
cd "$(dirname "$0")" || exit 2
HERE=$PWD
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
. "$HERE/env.sh"
mkdir -p "$HERE/evidence"
case $ID in
  C15|C16) CRATE=wire; BIN=nttwire ;;
  C24) CRATE=gov; BIN=nttgov ;;
  C3[3-9]|C4[0-3]|C47) exec node "$HERE/evm/src/main.mjs" check "$ID" "$TIER" "$HERE/evidence" "$HERE/known-findings.txt" ;;
  C44|C48) exec node "$HERE/ts/src/main.mjs" check "$ID" "$TIER" "$HERE/evidence" "$HERE/known-findings.txt" ;;
  *) CRATE=mc; BIN=nttmc ;;
esac
LOG=$HERE/evidence/build-$ID.log
if ! (cd "$HERE/$CRATE" && cargo build --offline --bin $BIN) >"$LOG" 2>&1; then
  tail -40 "$LOG"
  echo "build failed"
  exit 2
fi
exec "$CARGO_TARGET_DIR/debug/$BIN" check "$ID" "$TIER" "$HERE/evidence" "$HERE/known-findings.txt"
