#!/bin/bash
# try_seeds.sh [id ...]: which checks catch which planted bugs. Applies each to
# /repo, runs the check of its property, and undoes it.
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
cd "$ROOT"
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
ids="$*"; [ -n "$ids" ] || ids="$(ls seeded)"
for id in $ids; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$ROOT/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    out=$(timeout 900 ./check.sh ${CHECK:-$p} 2>&1); rc=$?
    git -C /repo checkout -q -- .
    if [ $rc = 1 ] && grep -q "^VIOLATION property=${CHECK:-$p} " <<<"$out"; then echo "$id: caught by ${CHECK:-$p}: $(grep -m1 '^--- ' <<<"$out")"
    else echo "$id: MISSED by ${CHECK:-$p} (exit $rc)"; fi
done
