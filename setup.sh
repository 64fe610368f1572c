#!/bin/bash
# Builds every harness crate once (offline).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR=$here/target/api RUSTFLAGS="" cargo build --release --offline --manifest-path "$here/api/Cargo.toml"
if [ -f "$here/hooked/Cargo.toml" ]; then
    CARGO_TARGET_DIR=$here/target/hooked RUSTFLAGS="--cfg cyphus_verif" cargo build --release --offline --manifest-path "$here/hooked/Cargo.toml"
fi
