#!/bin/bash
# Stand-in for the CARGO that a host program is started with: builds guests offline with a toolchain
# that has the sources of core and alloc.
unset RUSTFLAGS RUSTC RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO RUSTDOC RUST_RECURSION_COUNT
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true
exec cargo "$@" --offline -Zbuild-std=core,alloc
