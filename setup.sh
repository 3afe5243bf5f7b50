#!/bin/sh
# Builds the harness once, to show that it builds offline; every check builds what it needs itself.
set -e
cd "$(dirname "$0")/harness"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export PATH="/root/.cargo/bin:$PATH"
cargo build --offline --features pemdas,opt --target-dir ../target/stable 2>&1 | tail -n 2
