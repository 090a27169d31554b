# Sourced by check.sh and setup.sh: a pinned, offline toolchain.
export HOME="${HOME:-/root}"
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin"
export RUSTUP_TOOLCHAIN=1.79.0
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$ROOT/target"
export CARGO_INCREMENTAL=0
export MC_ROOT="$ROOT"
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
