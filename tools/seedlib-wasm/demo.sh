#!/bin/bash
# exit 0: the property's demonstration passes on /repo's current tree
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
W=$(mktemp -d) || exit 3
trap '/bin/rm -rf "$W"' EXIT
cp -r "$D/demo/." "$W/"
cp /repo/js/wasm/Cargo.lock "$W/Cargo.lock"
cd "$W" || exit 3
CARGO_TARGET_DIR="$W/target" cargo build --offline >"$W/log" 2>&1 || { tail -40 "$W/log"; exit 4; }
timeout 100 "$W/target/debug/demo"
