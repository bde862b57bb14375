#!/bin/bash
# Builds the program beside this file against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd) || exit 3
repo=$PWD
dir=$(mktemp -d /tmp/ipmb-demo.XXXXXX) || exit 3
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src" && cp "$here"/*.rs "$dir/src/" && cp "$repo/Cargo.lock" "$dir/" || exit 3
cat >"$dir/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ipmb = { path = "$repo/ipmb" }
serde = { version = "1", features = ["derive"] }
type-uuid = "0.1.2"
libc = "0.2.174"
[profile.dev]
panic = "abort"
EOF
cd "$dir" || exit 3
CARGO_TARGET_DIR=$dir/target cargo build --offline -q 2>"$dir/log" || { cat "$dir/log"; exit 3; }
timeout 120 "$dir/target/debug/demo"
r=$?
[ $r = 0 ] || echo "demo: exit $r"
exit $r
