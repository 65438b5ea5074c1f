#!/bin/bash
# Builds the simulator against the current working tree of /repo.
set -e
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="${CARGO_TARGET_DIR:-$PWD/target}" RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
unset RUSTFLAGS
# the compiler's name for the function that releases memory
tmp="$(mktemp -d)"
echo 'pub fn f(b: Box<u8>) { drop(b) }' >"$tmp/x.rs"
SIM_DEALLOC="$(rustc --crate-type=lib --emit=llvm-ir -Cno-prepopulate-passes -o "$tmp/x.ll" "$tmp/x.rs" 2>/dev/null && grep -oE '@_R[A-Za-z0-9_]*14___rust_dealloc' "$tmp/x.ll" | head -1 | tr -d @)" || true
rm -rf "${tmp:?}"
export SIM_DEALLOC
# cargo decides by modification times; a restored file may look old
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/cam-geom-* "$CARGO_TARGET_DIR"/release/.fingerprint/camglue-* "$CARGO_TARGET_DIR"/release/.fingerprint/camex-*
cargo build --release --offline "$@"
