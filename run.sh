#!/bin/bash
# developer helper: run.sh <tier> <ids...>  builds and runs verbosely
cd /verif; T=$1; shift
. ./env.sh; (cd mc && cargo build --offline 2>&1 | grep -E "^(warning|error)" -A6 | head -80; exit ${PIPESTATUS[0]}) || exit 1
for i in "$@"; do NTTMC_VERBOSE=1 ./check.sh $i $T 2>&1 | cut -c1-${W:-260}; done
