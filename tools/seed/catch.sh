#!/bin/bash
# catch.sh ID...: runs the check of each planted bug's property against it in /repo, and undoes it.
for id in "$@"; do
    d=/verif/seeded/$id
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    git -C /repo apply $d/patch.diff || continue
    t0=$(date +%s)
    out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $p 2>&1); rc=$?
    git -C /repo checkout -q -- .
    if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$p "; then echo "$id: caught by $p ($(($(date +%s)-t0)) s): $(echo "$out" | grep '^VIOLATION' | head -3 | tr '\n' ' ')"; else echo "$id: MISSED by $p rc=$rc"; echo "$out" | tail -3; fi
done
