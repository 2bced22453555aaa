#!/bin/bash
# run.sh ID: builds the model checker against /repo's working tree and runs
# the check of one property. Tier from VERIF_TIER.
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTDOCFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here
log=$(mktemp)
if ! cargo build --release --offline --manifest-path "$here/mc/Cargo.toml" >"$log" 2>&1; then
    tail -40 "$log" >&2
    rm -f "$log"
    echo "run.sh: build failed" >&2
    exit 3
fi
rm -f "$log"
[ "$1" = --build-only ] && exit 0
if [ "$1" = --replay ]; then
    exec "$here/mc/target/release/mc" --replay "$2"
fi
exec "$here/mc/target/release/mc" --property "$@"
