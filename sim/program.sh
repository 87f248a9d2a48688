#!/bin/sh
# Builds the generator program of /repo, as it is shipped, and its seam: /verif/target/program.
cd "$(dirname "$0")" || exit 2
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
out="$PWD/../target/program"
mkdir -p "$out" || exit 2
export CARGO_TARGET_DIR="$PWD/../target/bin" CARGO_NET_OFFLINE=true
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/dynparser-* 2>/dev/null
(cd /repo && cargo build --offline --quiet --bins) >"$out/build.log" 2>&1 || { cat "$out/build.log"; exit 2; }
cp "$CARGO_TARGET_DIR/debug/dynparser" "$out/generator.new" && mv "$out/generator.new" "$out/generator" || exit 2
cc -O1 -shared -fPIC -o "$out/preload.new" preload/preload.c && mv "$out/preload.new" "$out/preload.so" || exit 2
