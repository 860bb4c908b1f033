#!/bin/bash
# build_ir.sh OUTDIR : IR of the harness crate over /repo's current sources
set -e
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$1" CARGO_NET_OFFLINE=true
cd "$(dirname "$0")/harness"
rm -f "$1"/release/deps/harness-*.ll "$1"/release/deps/libharness-*
cargo rustc --release --offline --lib --crate-type staticlib -- --emit=llvm-ir >"$1.log" 2>&1 || { tail -40 "$1.log" >&2; exit 2; }
