#!/bin/bash
# Runs demo.rs against the sources in /repo: exit 0 when the property holds.
# The kit is a stand-in substrate on which the real pallets and the real runtime configuration compile.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
tar xJf "$d/kit.txz" -C "$w" || exit 3
mkdir -p "$w/sims/demo/src"
cp "$d/demo.rs" "$w/sims/demo/src/main.rs"
cp "$w/sims/demo.toml" "$w/sims/demo/Cargo.toml"
cd "$w" || exit 3
CARGO_TARGET_DIR="$w/target" CARGO_INCREMENTAL=0 cargo +stable run --offline --quiet -p demo 2>&1 | tail -40
exit "${PIPESTATUS[0]}"
