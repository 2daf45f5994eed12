#!/bin/bash
# Development aid, read by no check: applies each planted change of seeded/ to
# /repo in turn, runs the check of its property, undoes the change.
# usage: tools/seeded.sh [ID...]
cd "$(dirname "$0")/.." || exit 2
ids=${*:-$(ls seeded)}
trap 'git -C /repo checkout -q -- .' EXIT
for id in $ids; do
    prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id $prop PATCH"; continue; }
    out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash checks/check.sh "$prop" quick 2>&1); rc=$?
    git -C /repo checkout -q -- .
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " <<<"$out"; then
        echo "$id $prop caught: $(grep -m1 '^VIOLATION' <<<"$out" | cut -c1-160)"
    else
        echo "$id $prop MISSED rc=$rc $(tail -1 <<<"$out")"
    fi
done
