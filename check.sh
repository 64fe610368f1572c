#!/bin/bash
# check.sh <property id> [replay file]
# Builds the harness against /repo's working tree and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
case $id in
    C15|C16|C17|C18) crate=hooked ;;
    *) crate=api ;;
esac
export VERIF_DIR=$here
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$here/target/$crate
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence" "$here/replays"
run=$CARGO_TARGET_DIR/run-$id-$$
(
    flock 9
    # never trust timestamps for the code under test
    rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/cyphus-diffeq-*
    if [ $crate = hooked ]; then
        export RUSTFLAGS="--cfg cyphus_verif"
    else
        export RUSTFLAGS=""
    fi
    cargo build --release --offline --quiet --manifest-path "$here/$crate/Cargo.toml" >"$run.log" 2>&1 || { cat "$run.log"; exit 1; }
    cp "$CARGO_TARGET_DIR/release/$crate" "$run"
) 9>"$CARGO_TARGET_DIR/lock" || { rm -f "$run.log"; echo "ERROR: build failed"; exit 4; }
rm -f "$run.log"
"$run" "$@"
code=$?
rm -f "$run"
exit $code
