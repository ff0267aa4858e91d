# Toolchain and flags shared by every check (same as /opt/vp/env.sh, own target directory, hooks on).
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2025-12-08
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1
export RUSTC_WRAPPER=
export RUSTFLAGS="-C target-feature=+avx2,+fma --cfg verif_hooks"
