#!/bin/bash
# Regenerates the whole-program LLVM IR of /repo's current tree plus the harnesses.
set -e
ROOT=$(cd "$(dirname "$0")/.." && pwd)
OUT=${1:-$ROOT/target/ir}
source /opt/vp/env.sh 2>/dev/null || true
export RUSTUP_TOOLCHAIN=nightly-2026-08-21 CARGO_TARGET_DIR=$OUT/cargo CARGO_NET_OFFLINE=true
unset CARGO_PROFILE_DEV_DEBUG CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS=-Awarnings
B=${RUSTUP_HOME:-/root/.rustup}/toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin
mkdir -p $OUT
find $OUT/cargo -name '*.lto.input.bc' -delete 2>/dev/null || true
touch $ROOT/harness/ir/src/lib.rs
(cd $ROOT/harness/ir && cargo rustc --offline -q -- -C save-temps -C no-prepopulate-passes)
BC=$(find $OUT/cargo -name '*.lto.input.bc' | head -1)
API=$(grep -rhoE 'extern "C" fn h_[a-z0-9_]+' $ROOT/harness/core/src | awk '{print $4}' | sort -u | paste -sd,)
$B/opt -passes="internalize,globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)" -internalize-public-api-list=$API $BC -o $OUT/all.bc
find $OUT/cargo -name '*.bc' -delete
