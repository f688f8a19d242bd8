#!/usr/bin/env bash
# Builds every variant of the harness once, so that the checks only rebuild what changed.
set -e
log=$(mktemp); trap 's=$?; [ $s = 0 ] || tail -n 40 "$log"; rm -f "$log"' EXIT
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
M="--offline --quiet --manifest-path mc/Cargo.toml"
for f in geometry protocol output inputs reuse isolation diagnostics work robust; do
    cargo build $M --release --target-dir mc/target --features $f 2>>"$log"
done
cargo build $M --profile checked --target-dir mc/target --features robust 2>>"$log"
RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zub-checks=yes" cargo build $M --release --target-dir mc/target-ubchecks --features robust 2>>"$log"
cargo build $M --release --target-dir mc/target-debugging --features debugging 2>>"$log"
