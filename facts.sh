#!/bin/bash
# Extracts the MIR facts of /repo's current working tree into $1 (a directory).
# Dependencies are cached in .build/target; the workspace crates are re-analysed on every run.
set -e
mkdir -p "$1"; OUT=$(cd "$1" && pwd); HERE=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$HERE/.build/target
SYS=$(rustc --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
export RUSTC_WORKSPACE_WRAPPER=$HERE/.build/driver/release/mirfacts
unset RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC
rm -f "$OUT"/*.json
export CARGO_INCREMENTAL=0
export MIRFACTS_DIR=$OUT
rm -rf "$CARGO_TARGET_DIR"/debug/build/carcara "$CARGO_TARGET_DIR"/debug/build/carcara-cli "$CARGO_TARGET_DIR"/debug/build/test-generator "$CARGO_TARGET_DIR"/debug/incremental "$CARGO_TARGET_DIR"/debug/.fingerprint/carcara-*
cd /repo
cargo check --workspace --locked --offline --quiet 2>"$OUT/cargo.log" || { cat "$OUT/cargo.log" >&2; exit 3; }
