#!/bin/bash
# As mc/build.sh, for the C and C++ interfaces; shares its target directory.
cd "$(dirname "$0")" || exit 2
export RUSTC_BOOTSTRAP=1
export RUSTFLAGS="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer -Zexternal-clangrt -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0"
exec cargo build --offline --locked -q --target x86_64-unknown-linux-gnu --target-dir "${MC_TARGET:-../mc/target}" "$@"
