#!/bin/bash
set -e
ROOT=$(cd "$(dirname "$0")/.." && pwd)
source /opt/vp/env.sh 2>/dev/null || true
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$ROOT/target/engine CARGO_NET_OFFLINE=true
unset CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS=-Awarnings
cd $ROOT/engine
cargo build --release --offline -q
