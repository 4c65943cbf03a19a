#!/bin/bash
# Builds the checkers once, to show that they build here; every check builds again what it needs.
set -u
cd "$(dirname "$0")/mc" || exit 1
RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR=target/std cargo build --release --offline --locked --quiet --bin mc || exit 1
RUSTFLAGS="--cfg carmen_verif -Awarnings" CARGO_TARGET_DIR=target/fmt cargo build --release --offline --locked --quiet --bin mcfmt || exit 1
cd ../js || exit 1
RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR=../mc/target/js cargo build --release --offline --locked --quiet --bin mcjs
