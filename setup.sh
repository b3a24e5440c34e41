#!/bin/bash
# Builds the engine and warms the native builds the replayer needs.
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
(cd engine && cargo build --release --offline)
