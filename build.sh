#!/bin/bash
# Builds the simulator against the current working tree of /repo. Output outside /repo, in a directory git ignores.
cd "$(dirname "$0")/sim" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p target
# cargo judges by modification times; judge by content as well.
now=$( { find /repo/src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum /repo/Cargo.toml src/* Cargo.toml Cargo.lock; } | sha256sum)
if [ "$now" != "$(cat target/content.sum 2>/dev/null)" ]; then
    for d in "$PWD"/target/release/.fingerprint/tedium-* "$PWD"/target/release/.fingerprint/tdsim-*; do
        [ -d "$d" ] && rm -r "$d"
    done
    rm -f "$PWD/target/content.sum"
fi
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
echo "$now" >target/content.sum
