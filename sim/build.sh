#!/bin/sh
# Builds the simulator against /repo's working tree into /verif/target/sim.
cd "$(dirname "$0")" || exit 2
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL
export RUSTC_WRAPPER="$PWD/rustc-wrapper.sh"
export RUSTFLAGS="-Crelocation-model=static -Clink-arg=-no-pie"
export CARGO_TARGET_DIR="$PWD/../target/sim" CARGO_NET_OFFLINE=true
mkdir -p "$CARGO_TARGET_DIR" || exit 2
# cargo's change detection works on times; the library is always rebuilt
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/dynparser-* 2>/dev/null
cargo build --release --offline --quiet "$@" >"$CARGO_TARGET_DIR.log" 2>&1 || { cat "$CARGO_TARGET_DIR.log"; exit 2; }
