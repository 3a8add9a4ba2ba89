#!/bin/bash
# developer helper: as b.sh, for the css crate
. /verif/env.sh
export CARGO_INCREMENTAL=0
cd /verif/css
RUSTFLAGS="$WASM_FLAGS" CARGO_TARGET_DIR=$T/css-wasm cargo build --offline --profile sym --lib --target wasm32-unknown-unknown 2>&1 | grep -E "^(error|warning)|-->|Finished" -A6| tail -30
[ "$1" = n ] && CARGO_TARGET_DIR=$T/css-native cargo build --offline --bin replay 2>&1 | tail -1
true
