#!/bin/bash
# dev.sh <id>...: build once, run the checks verbosely (development aid)
export VERIF_VERBOSE=1
for i in "$@"; do
    case $i in C15|C16|C17|C18) c=hooked; export RUSTFLAGS="--cfg cyphus_verif" ;; *) c=api; export RUSTFLAGS="" ;; esac
    export CARGO_TARGET_DIR=/verif/target/$c
    cargo build --release --offline --manifest-path /verif/$c/Cargo.toml 2>&1 | grep -E "^error" -A9
    timeout 880 $CARGO_TARGET_DIR/release/$c $i 2>/dev/null | grep -vE '"kind|"reltol|"below|Aborting' | awk '/^max/{p=1} {n++} n<60||p'
done
