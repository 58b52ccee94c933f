#!/bin/bash
# Native build of the harnesses, for replaying the solver's inputs. $1: plain | asan
set -e
ROOT=$(cd "$(dirname "$0")/.." && pwd)
KIND=${1:-plain}
source /opt/vp/env.sh 2>/dev/null || true
export RUSTUP_TOOLCHAIN=nightly-2026-08-21 CARGO_TARGET_DIR=$ROOT/target/replay-$KIND CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset CARGO_PROFILE_DEV_DEBUG CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS=-Awarnings
EXTRA=
if [ $KIND = asan ]; then export RUSTFLAGS="-Awarnings -Zsanitizer=address --cfg sv_asan"; EXTRA="--target x86_64-unknown-linux-gnu"; fi
cd $ROOT/harness/replay
cargo build --offline -q $EXTRA
