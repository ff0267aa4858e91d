#!/bin/bash
# Usage: check.sh <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
# Builds the harness against /repo's working tree, then runs one check.
# Exit 0: held on everything observed; 1: violation (with a VIOLATION line); anything else: no verdict.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
. ./env.sh
export CARGO_TARGET_DIR=$VERIF_DIR/target
id=$1
log=$(mktemp)
trap 'rm -f "$log" "$log".*' EXIT
fail() {
  grep -E '^error|^  *-->' "$1" | head -40
  tail -5 "$1"
  echo "INCONCLUSIVE property=$id the tree does not build with the harness"
  exit 4
}
# The same harness with a sanitizer (ThreadSanitizer needs an instrumented standard library).
sanitized() {
  cd harness && CARGO_TARGET_DIR=$CARGO_TARGET_DIR/$1 CARGO_INCREMENTAL=0 RUSTUP_TOOLCHAIN=$2 RUSTFLAGS="$RUSTFLAGS -Zsanitizer=$1" \
    cargo build --offline --quiet --target x86_64-unknown-linux-gnu "${@:3}"
}
if [ "$id" = M01 ]; then
  (sanitized address "$RUSTUP_TOOLCHAIN") >"$log.a" 2>&1 & a=$!
  (sanitized thread nightly -Zbuild-std) >"$log.t" 2>&1 & t=$!
fi
(cd harness && cargo build --offline --quiet) >"$log" 2>&1 || fail "$log"
if [ "$id" = M01 ]; then
  wait $a || fail "$log.a"
  # Another toolchain: when it alone cannot build the tree, the check goes on without it and says so.
  wait $t || { tail -5 "$log.t"; rm -f "$CARGO_TARGET_DIR/thread/x86_64-unknown-linux-gnu/debug/harness"; }
fi
rm -f "$log" "$log".*
exec "$CARGO_TARGET_DIR/debug/harness" "$id"
