#!/bin/bash
# trial.sh <label> <patch file | -R commit> [ids...]
# Applies a change to a scratch copy of /repo and reports which checks notice it
# (development aid; works in /tmp/trial, never in /repo).
set -u
label=$1; shift
S=${TRIAL:-/tmp/trial}
V=${FROM:-/verif}
mkdir -p $S
if [ ! -d $S/repo ]; then git clone -q /repo $S/repo; fi
git -C $S/repo fetch -q /repo HEAD && git -C $S/repo checkout -qf FETCH_HEAD && git -C $S/repo clean -qfd -e target
if [ "$1" = -R ]; then
    git -C $S/repo revert -n "$2" >/dev/null 2>&1 || { echo "$label: revert conflicts"; git -C $S/repo revert --abort; exit 2; }
    shift 2
else
    git -C $S/repo apply --allow-empty "$1" || { echo "$label: patch does not apply"; exit 2; }
    shift
fi
ids=${*:-$(seq -f 'C%02g' 1 99)}
for c in engine api hooked; do
    mkdir -p $S/verif/$c
    rsync -a --delete $V/$c/ $S/verif/$c/
    sed -i "s#path = \"/repo\"#path = \"$S/repo\"#" $S/verif/$c/Cargo.toml
done
rm -rf "$S/verif/regress"; cp -a $V/regress $S/verif/regress 2>/dev/null
cp $V/known_findings.txt $S/verif/ 2>/dev/null
export CARGO_NET_OFFLINE=true
t=$(cd $S/repo && CARGO_TARGET_DIR=$S/t-test timeout 300 cargo test --offline --lib 2>&1 | grep -E "^test result" | head -1)
CARGO_TARGET_DIR=$S/t-api RUSTFLAGS="" cargo build --release --offline --quiet --manifest-path $S/verif/api/Cargo.toml >$S/log 2>&1 || { echo "$label: api does not build"; exit 2; }
CARGO_TARGET_DIR=$S/t-hooked RUSTFLAGS="--cfg cyphus_verif" cargo build --release --offline --quiet --manifest-path $S/verif/hooked/Cargo.toml >$S/log 2>&1 || { echo "$label: hooked does not build"; exit 2; }
out=""
for i in $ids; do
    grep -q "\"$i\" =>" $V/api/src/main.rs && c=api || { grep -q "\"$i\" =>" $V/hooked/src/main.rs && c=hooked || continue; }
    VERIF_DIR=$S/verif VERIF_NOSHRINK=1 VERIF_SEED=${SEED:-1} timeout 150 $S/t-$c/release/$c $i >$S/out-$i 2>/dev/null
    r=$?
    [ $r -eq 1 ] && out="$out $i"
    [ $r -gt 1 ] && out="$out $i(exit $r)"
done
echo "$label: [${t#test result: }] caught by:${out:- NOTHING}"
