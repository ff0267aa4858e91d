#!/bin/bash
# Builds the harness once (the checks rebuild what changed).
cd "$(dirname "$0")" || exit 2
. ./env.sh
export CARGO_TARGET_DIR=$PWD/target
(cd harness && cargo build --offline --quiet)
