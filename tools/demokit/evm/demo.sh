#!/bin/bash
# Runs the demonstration against the contracts of the repository in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
NTT_REPO=$PWD exec node --stack-size=3000 "$D/demo.mjs"
