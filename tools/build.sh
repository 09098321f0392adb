#!/bin/bash
# build.sh CRATE: builds /verif/CRATE (harness or harness-gov) from /repo's working tree.
# The third-party crates that /repo's own test build left in /opt/vp/target are copied
# (never written to); /repo's crates and the harness are always compiled from source here.
set -e
crate=${1:-harness}
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$here/$crate/target CARGO_INCREMENTAL=0
unset RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
exec 9> "$here/$crate/target/.lock"
flock 9
if [ ! -d "$CARGO_TARGET_DIR/debug" ] && [ -d /opt/vp/target/debug ]; then
    tmp=$CARGO_TARGET_DIR/seed.$$
    mkdir -p "$tmp/deps"
    cp -a /opt/vp/target/debug/build /opt/vp/target/debug/.fingerprint "$tmp/" || true
    find /opt/vp/target/debug/deps -maxdepth 1 -type f \( -name '*.rlib' -o -name '*.rmeta' -o -name '*.so' -o -name '*.d' \) -print0 |
        xargs -0 cp -a -t "$tmp/deps" || true
    mv "$tmp" "$CARGO_TARGET_DIR/debug"
fi
# /repo's crates are compiled anew whenever any of their sources differ from the last build
sum=$( (cd "$here/../repo/solana" && find . -path ./node_modules -prune -o -path ./target -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 |
    sort -z | xargs -0 sha256sum) | sha256sum)
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/.repo-sum" 2>/dev/null)" ]; then
    for c in ntt-messages example-native-token-transfers ntt-quoter ntt-transceiver dummy-transfer-hook wormhole-governance; do
        rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/$c-*
    done
fi
cd "$here/$crate"
cp Cargo.lock "$CARGO_TARGET_DIR/Cargo.lock.committed"
rc=0
bin=conform
[ $crate = harness ] || bin=conform-gov
cargo build --offline --bin $bin || rc=$?
if [ $rc = 0 ] && [ $crate = harness ]; then
    # optional: the only part that names Rust items of the code under test
    cargo build --offline --bin conform-lib || rm -f "$CARGO_TARGET_DIR/debug/conform-lib"
fi
cmp -s Cargo.lock "$CARGO_TARGET_DIR/Cargo.lock.committed" || cp "$CARGO_TARGET_DIR/Cargo.lock.committed" Cargo.lock
[ $rc = 0 ] || exit $rc
echo "$sum" > "$CARGO_TARGET_DIR/.repo-sum"
