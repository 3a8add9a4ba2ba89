# toolchain used by the developer helpers (check.py sets its own)
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=1.99.0-x86_64-unknown-linux-gnu
export T=${VERIF_TARGET:-/verif/target}
export WASM_FLAGS="-C link-arg=-zstack-size=262144 -C link-arg=--export=__heap_base"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
