#!/bin/bash
# builds the checkers once (the checks rebuild incrementally)
cd "$(dirname "$0")" || exit 2
. ./env.sh
for c in mc wire gov; do
  [ -f $c/Cargo.toml ] && { (cd $c && cargo build --offline) || exit 1; }
done
node evm/selftest/run.mjs > /dev/null || exit 1
exit 0
