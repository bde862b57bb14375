#!/bin/bash
# verify.sh ID...: confirms planted bugs in a scratch copy (/tmp/w): builds, tests pass, demo fails only with the patch.
W=/tmp/w
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
for id in "$@"; do
    d=/verif/seeded/$id
    cd $W || exit 2
    git checkout -q -- .
    for i in 1 2; do timeout 300 bash $d/demo.sh >/tmp/demo.log 2>&1 || { echo "$id: DEMO FAILS UNCHANGED"; tail -5 /tmp/demo.log; }; done
    git apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
    cargo build --workspace --all-targets --offline >/tmp/build.log 2>&1 || { echo "$id: DOES NOT BUILD"; tail -20 /tmp/build.log; }
    timeout 300 cargo test --workspace --offline >/tmp/test.log 2>&1 || echo "$id: TESTS FAIL"
    for i in 1 2 3; do timeout 300 bash $d/demo.sh >/tmp/demo.log 2>&1 && echo "$id: DEMO PASSES PATCHED"; done
    tail -1 /tmp/demo.log; tail -2 /tmp/demo.log | grep -q 'exit 3' && cat /tmp/demo.log
    git checkout -q -- .
    echo "$id: verified"
done
