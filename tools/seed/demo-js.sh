#!/bin/bash
# Builds the JavaScript interface of the tree in the current directory and runs the script beside this file.
here=$(cd "$(dirname "$0")" && pwd) || exit 3
dir=$(mktemp -d /tmp/ipmb-demo.XXXXXX) || exit 3
trap 'rm -rf "$dir"' EXIT
CARGO_TARGET_DIR=$dir/target cargo build --offline -q -p ipmb-js 2>"$dir/log" || { cat "$dir/log"; exit 3; }
cp "$dir/target/debug/libipmb_js.so" "$dir/ipmb.node" && cp "$here/demo.js" "$dir/" || exit 3
cd "$dir" || exit 3
timeout 100 node demo.js
r=$?
[ $r = 0 ] || echo "demo: exit $r"
exit $r
