#!/bin/bash
# Scratch copies for mutate.py: /tmp/mr of /repo, /tmp/mv of /verif.
rm -rf /tmp/mr /tmp/mv
cp -a /repo /tmp/mr
mkdir /tmp/mv
cd /verif && tar c --exclude=./seeded --exclude=./evidence --exclude=./.git . | tar x -C /tmp/mv
cd /tmp/mv && sed -i 's#/repo#/tmp/mr#g' mc/Cargo.toml ffi/Cargo.toml ffi/lib/Cargo.toml ffi/build.rs js/Cargo.toml js/lib/Cargo.toml
grep -rl '"/repo' --include=*.rs mc/src ffi/src js/src | xargs -r sed -i 's#"/repo#"/tmp/mr#g'
sed 's#^cd /repo#cd /tmp/mr#' /opt/vp/env.sh > /tmp/mr.env
