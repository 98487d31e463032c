#!/bin/bash
# run in the repository root: builds a small program against it and runs it (exit 0 = behaves as stated)
set -u
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here"/*.rs "$d/src/"
sed "s#@REPO@#$PWD#g" "$here/Cargo.toml.in" > "$d/Cargo.toml"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cd "$d"
export CARGO_TARGET_DIR="$d/target" RUSTUP_TOOLCHAIN=nightly-2026-02-15 CARGO_NET_OFFLINE=true
cargo build --offline -q || exit 3
timeout 60 "$d/target/debug/demo"
