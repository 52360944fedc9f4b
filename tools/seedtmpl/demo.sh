#!/usr/bin/env bash
# Runs main.rs against the pasture crates of the current directory (/repo): exit 0 when the property holds.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d) || exit 9
trap 'rm -rf -- "$W"' EXIT
mkdir -p "$W/src"
cp "$D/main.rs" "$W/src/main.rs"
cp "$D/Cargo.lock" "$W/Cargo.lock"
sed "s#@REPO@#$R#" "$D/Cargo.toml.in" > "$W/Cargo.toml"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" CARGO_TERM_COLOR=never
cd "$W" && cargo +stable build --offline --quiet 2>"$W/log" || { tail -20 "$W/log"; exit 8; }
timeout 120 "$W/target/debug/demo"
