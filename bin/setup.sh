#!/bin/sh
# builds the harness (dependencies optimised, library and harness not) against /repo
set -e
cd "$(dirname "$0")/../harness"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_TARGET_DIR
cargo build --offline --quiet
