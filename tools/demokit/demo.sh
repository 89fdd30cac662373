#!/bin/bash
# Builds hyperbee from the working tree it is run in against small stand-ins for the crates that
# are not on this machine (kit/), and runs kit/demo. Exit 0: the property held.
set -u
repo="$PWD"
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)" || exit 9
trap 'rm -rf "$t"' EXIT
cp -r "$here/kit" "$t/kit" || exit 9
cp -r "$repo/src" "$t/kit/hyperbee/src"
# code of the demo that needs private items
for f in "$t"/kit/append/*; do [ -e "$f" ] && cat "$f" >>"$t/kit/hyperbee/src/$(basename "$f")"; done
cp "$repo/build.rs" "$t/kit/hyperbee/build.rs"
cd "$t/kit" || exit 9
unset CARGO_TARGET_DIR RUSTFLAGS
features="$(cat features 2>/dev/null)"
cargo build --offline -q -p demo ${features:+--features "$features"} >"$t/log" 2>&1 || { tail -30 "$t/log"; exit 8; }
RUST_BACKTRACE=0 timeout 60 target/debug/demo
