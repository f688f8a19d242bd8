#!/usr/bin/env bash
# check.sh ID [quick|thorough]     build from /repo's working tree and run one check
# check.sh replay FILE             re-run one recorded execution
set -u
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
unset TRIANGULATE_SVG_OUTPUT_PATH TRIANGULATE_SVG_OUTPUT_LEVEL TRIANGULATE_SVG_HIDE_LABELS
T="$PWD/mc/target"
build() { # profile target-dir extra-args...
    local profile=$1 dir=$2; shift 2
    local log; log=$(mktemp)
    if ! cargo build --offline --quiet --manifest-path mc/Cargo.toml --profile "$profile" --target-dir "$dir" "$@" >"$log" 2>&1; then
        cat "$log" >&2; rm -f "$log"; echo "check.sh: building the harness against /repo failed" >&2; exit 3
    fi
    rm -f "$log"
}
# release code, but every unchecked access is checked (and aborts the process)
ubchecks() { RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zub-checks=yes" build release "$T-ubchecks" --features "$1"; }
# with and without the debugging feature; release code, but arithmetic overflow panics in both
diagnostics() { build arith "$T" --features diagnostics; build arith "$T-debugging" --features debugging; }
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
export MC_BIN_CHECKED="$T/checked/mc" MC_BIN_UBCHECKS="$T-ubchecks/release/mc" MC_BIN_DEBUGGING="$T-debugging/arith/mc"
# the checks compiled in, and the further builds of the code under test a property needs
group() { case "$1" in
    C01|C03|C04|C05) F=geometry ;; C06|C07) F=protocol ;; C08|C09) F=output ;; C02|C13) F=robust ;;
    C10|C11) F=inputs ;; C12) F=reuse ;; C14) F=isolation ;; C15) F=diagnostics ;; C16) F=work ;;
    *) echo "unknown property $1" >&2; exit 2 ;; esac; }
if [ "$ID" = replay ]; then
    group "$(sed -n 's/^property //p' "$2")"
    BIN="$T/release/mc"
    case "$(sed -n 's/^part //p' "$2")" in
        bounds*) ubchecks "$F"; BIN=$MC_BIN_UBCHECKS ;;
        assertions) build checked "$T" --features "$F"; BIN=$MC_BIN_CHECKED ;;
        *) build release "$T" --features "$F" ;;
    esac
    [ "$F" = diagnostics ] && { diagnostics; BIN="$T/arith/mc"; }
    exec "$BIN" replay "$2"
fi
group "$ID"
BIN="$T/release/mc"
[ "$ID" = C15 ] || build release "$T" --features "$F"
case "$ID" in
    C02) build checked "$T" --features "$F" ;;
    C13) build checked "$T" --features "$F"; ubchecks "$F" ;;
    C15) diagnostics; BIN="$T/arith/mc" ;;
esac
# memory cap (address space): a runaway allocation aborts the worker, which the parent investigates
ulimit -v $((24 * 1024 * 1024))
exec "$BIN" check "$ID" "$TIER"
