#!/bin/bash
# Builds the harness from the committed files (the checks rebuild it themselves as needed).
set -e
cd "$(dirname "$0")/.."
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS=-Awarnings
cargo build --offline --quiet --manifest-path harness/Cargo.toml 2>/dev/null
cargo build --offline --quiet --manifest-path tls/Cargo.toml 2>/dev/null
java -version >/dev/null 2>&1
