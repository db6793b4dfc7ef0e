#!/bin/bash
# builds and runs the little program in demo/ against the crate in the current directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp -r "$here/demo" "$t/demo" && cd "$t/demo" || exit 2
sed -i "s#@REPO@#$repo#" Cargo.toml
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" TMPDIR="$t"
cargo build --offline -q 2>"$t/log" || { cat "$t/log"; exit 2; }
timeout 120 "$t/target/debug/demo" "$t"
