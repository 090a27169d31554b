#!/bin/bash
# Builds everything the checks use from the committed files, offline.
ROOT="$(cd "$(dirname "$0")" && pwd)"
. "$ROOT/env.sh"
mkdir -p "$ROOT/target" "$ROOT/evidence"
cd "$ROOT/mc" || exit 1
# For C07 as well; it does without where there is no such toolchain.
RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$ROOT/target/features/newest" cargo build --release --offline --locked || true
cargo build --release --offline --locked
