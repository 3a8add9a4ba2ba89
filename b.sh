#!/bin/bash
# developer helper: build engine, wasm and (n) native harness
. /verif/env.sh
set -e
export CARGO_INCREMENTAL=0
(cd /verif/engine && CARGO_TARGET_DIR=$T/engine cargo build --offline --release 2>&1 | grep -E "^error|-->|Finished" | tail -3)
cd /verif/harness
RUSTFLAGS="$WASM_FLAGS" CARGO_TARGET_DIR=$T/wasm cargo build --offline --profile sym --lib --target wasm32-unknown-unknown 2>&1 | grep -E "^error|Finished|^warning: unus" -A8 | tail -60
[ "$1" = n ] && CARGO_TARGET_DIR=$T/native cargo build --offline --bin replay 2>&1 | tail -1
true
