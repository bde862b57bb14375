#!/bin/bash
# check.sh ID: builds the harness from /repo's working tree and explores the scenarios of one property.
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD
case "$1" in
    C20) pkg=ffi ;;
    C21 | C23) pkg=js ;;
    *) pkg=mc ;;
esac
$pkg/build.sh || { echo "check.sh: the harness does not build"; exit 2; }
exec "mc/target/x86_64-unknown-linux-gnu/debug/$pkg" check "$1"
