#!/bin/bash
# builds the harness (every check rebuilds it against /repo's current tree anyway)
cd "$(dirname "$0")/../harness" || exit 1
unset RUSTC_WRAPPER RUSTFLAGS
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_INCREMENTAL=0
cargo build --offline
