#!/bin/bash
# bash run.sh PROPERTY [--thorough | --replay FILE]
# Builds the checkers against /repo's working tree and explores one property.
# exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; 2: the check failed.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$ROOT"
P=${1:?usage: run.sh PROPERTY [--thorough | --replay FILE]}
shift
if [ "${1:-}" = "--thorough" ]; then export VERIF_TIER=thorough; fi
export CARGO_NET_OFFLINE=true
mkdir -p "$ROOT/evidence"
cd "$ROOT/mc" || exit 2

build() { # bin target-dir rustflags
  if [ "$1" = mcjs ]; then cd "$ROOT/js" || exit 2; fi
  RUSTFLAGS="$3 -Awarnings" CARGO_TARGET_DIR="$ROOT/mc/target/$2" \
    cargo build --release --offline --locked --quiet --bin "$1" 2> "$ROOT/mc/build-$1.log"
}
mkdir -p "$ROOT/mc/target"

EXE=
if [ "$P" = C04 ]; then
  # looks inside the record format through the hook; without it (its inner interface has changed),
  # the records are judged from outside alone
  if build mcfmt fmt "--cfg carmen_verif"; then
    EXE="$ROOT/mc/target/fmt/release/mcfmt"
  else
    echo "C04: the inner interface of the record format has changed; checking from outside only"
  fi
fi
if [ "$P" = C22 ]; then
  # with atomic operations made visible to the scheduler; without them if that cannot be had
  if RUSTC_WRAPPER="$ROOT/tools/rustc-atomics.sh" build mc race ""; then
    EXE="$ROOT/mc/target/race/release/mc"
  else
    echo "C22: built without scheduling points at atomic operations"
  fi
fi
case "$P" in C25|C26|C27)
  # the JavaScript bindings
  if ! build mcjs js ""; then
    cat "$ROOT/mc/build-mcjs.log" >&2
    echo "run.sh: the build failed" >&2
    exit 2
  fi
  EXE="$ROOT/mc/target/js/release/mcjs";;
esac
if [ -z "$EXE" ]; then
  if ! build mc std ""; then
    cat "$ROOT/mc/build-mc.log" >&2
    echo "run.sh: the build failed" >&2
    exit 2
  fi
  EXE="$ROOT/mc/target/std/release/mc"
fi

"$EXE" "$P" "$@"
RC=$?
if [ $RC -eq 0 ] || [ $RC -eq 1 ]; then exit $RC; fi
if [ $RC -lt 128 ]; then echo "run.sh: the checker ended with $RC" >&2; exit 2; fi

# killed by a signal (abort, stack overflow, bad memory access): find the case, one at a time
echo "run.sh: the checker was killed by signal $((RC - 128)); looking for the case" >&2
J="$ROOT/mc/target/journal-$P"
MC_SERIAL=1 MC_JOURNAL="$J" "$EXE" "$P" "$@" > "$J.out" 2>&1
RC2=$?
if [ $RC2 -eq 1 ]; then cat "$J.out"; exit 1; fi
if [ $RC2 -ge 128 ] && [ -s "$J" ]; then
  FAMILY=$(sed -n 1p "$J"); CASE=$(sed -n 2p "$J")
  mkdir -p "$ROOT/replays"
  R="$ROOT/replays/$P-$FAMILY-$CASE.txt"
  { echo "property $P"; echo "tier ${VERIF_TIER:-quick}"; echo "family $FAMILY"; echo "case $CASE"
    echo "run: bash $ROOT/run.sh $P --replay $R"; echo
    echo "the process was killed by signal $((RC2 - 128))"; } > "$R"
  echo "$FAMILY case $CASE: the process was killed by signal $((RC2 - 128))"
  echo "VIOLATION property=$P replay=$R"
  exit 1
fi
echo "run.sh: the crash did not happen again ($RC2)" >&2
exit 2
