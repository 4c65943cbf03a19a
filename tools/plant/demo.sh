#!/bin/bash
# Run in the repository's directory: exit 0 if the property shown here holds, else nonzero.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cp -r "$HERE/demo" "$HERE/shims" "$T/" || exit 3
sed "s#@REPO@#$REPO#" "$HERE/demo/Cargo.toml.in" > "$T/demo/Cargo.toml"
if [ -d "$HERE/demo/addon" ]; then sed "s#@REPO@#$REPO#" "$HERE/demo/addon/Cargo.toml.in" > "$T/demo/addon/Cargo.toml"; fi
cd "$T/demo" || exit 3
if [ -f "$T/demo/rustc-atomics.sh" ]; then export RUSTC_WRAPPER="$T/demo/rustc-atomics.sh"; fi
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS=-Awarnings
cargo build --offline --quiet || exit 3
mkdir "$T/run" && cd "$T/run" && TMPDIR="$T/run" "$T/target/debug/demo"
