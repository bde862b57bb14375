#!/bin/bash
# Builds the program beside this file against the C interface of the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd) || exit 3
repo=$PWD
dir=$(mktemp -d /tmp/ipmb-demo.XXXXXX) || exit 3
trap 'rm -rf "$dir"' EXIT
CARGO_TARGET_DIR=$dir/target cargo build --offline -q -p ipmb-ffi 2>"$dir/log" || { cat "$dir/log"; exit 3; }
cat "$repo"/ipmb-ffi/include/*.h >/dev/null || exit 3
g++ -std=c++17 -g -I"$repo/ipmb-ffi/include" -include memory -include string -include functional -include tuple "$here/demo.cc" "$repo/ipmb-ffi/ipmb.cc" -o "$dir/demo" -L"$dir/target/debug" -lipmb_ffi -Wl,-rpath,"$dir/target/debug" -lpthread -ldl 2>"$dir/log" || { cat "$dir/log"; exit 3; }
timeout 100 "$dir/demo"
r=$?
[ $r = 0 ] || echo "demo: exit $r"
exit $r
