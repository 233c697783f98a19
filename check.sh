#!/bin/bash
# Builds the harness against /repo's working tree and runs one check: check.sh <id> [tier]
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$PWD/target"
[ -n "$2" ] && export VERIF_TIER="$2"
export TMPDIR="${TMPDIR:-/tmp}"
log=$(mktemp)
if ! cargo build --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    grep -E '^error' -A8 "$log" | head -60
    echo "cannot build the harness against /repo" >&2
    rm -f "$log"
    exit 3
fi
# The command line tools, as C25 runs them
if [ "$1" = C25 ] || [ "$1" = build ]; then
    if ! cargo build --offline --manifest-path clt/Cargo.toml >"$log" 2>&1 && [ "$1" = C25 ]; then
        grep -E '^error' -A8 "$log" | head -60
        echo "cannot build the command line tools of /repo" >&2
        rm -f "$log"
        exit 3
    fi
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec target/debug/orverif check "$1"
