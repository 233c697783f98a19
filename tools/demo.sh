#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" "$w/tmp" && cp "$d"/*.rs "$w/src/" && mv "$w/src/demo.rs" "$w/src/main.rs" && cp "$repo/Cargo.lock" "$w/" || exit 2
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
libopenraw = { path = "$repo" }
[profile.dev]
debug = false
T
export TMPDIR="$w/tmp" CARGO_NET_OFFLINE=true
cd "$w" && CARGO_TARGET_DIR="$w/target" timeout 280 cargo run --offline -q 2>"$w/err"
rc=$?
[ $rc != 0 ] && tail -5 "$w/err" >&2
exit $rc
