#!/bin/bash
# Builds a small program against /repo's crates in a scratch folder and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
vp=$CARGO_TARGET_DIR/debug
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cp -r "$here"/* "$scratch"/ || exit 3
export CARGO_TARGET_DIR=${DEMO_TARGET:-$scratch/target}
if [ ! -d "$CARGO_TARGET_DIR" ]; then
  # start from a copy of the dependencies that build.sh compiled
  mkdir -p "$CARGO_TARGET_DIR/debug/deps"
  cp -a "$vp/.fingerprint" "$vp/build" "$CARGO_TARGET_DIR/debug/"
  find "$vp/deps" \( -name '*.rlib' -o -name '*.rmeta' -o -name '*.so' -o -name '*.d' \) -print0 | xargs -0 cp -a -t "$CARGO_TARGET_DIR/debug/deps"
fi
mkdir -p "$scratch/stubs" "$scratch/crate/.cargo"
mv "$scratch/wormhole-sdk" "$scratch/stubs/wormhole-sdk"
echo '{"files":{},"package":null}' > "$scratch/stubs/wormhole-sdk/.cargo-checksum.json"
cat > "$scratch/crate/.cargo/config.toml" <<X
[source."git+https://github.com/wormhole-foundation/wormhole?rev=eee4641"]
git = "https://github.com/wormhole-foundation/wormhole"
rev = "eee4641"
replace-with = "stubs"
[source.stubs]
directory = "$scratch/stubs"
X
cd "$scratch/crate" || exit 3
cargo build --offline -q 2> "$scratch/log" || { tail -30 "$scratch/log"; exit 4; }
"$CARGO_TARGET_DIR/debug/demo"
