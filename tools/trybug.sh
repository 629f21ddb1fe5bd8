#!/bin/sh
# tools/trybug.sh ID... : run the check of each seeded bug's property against a scratch copy of /repo with the bug
cd "$(dirname "$0")/.." || exit 2
for id in "$@"; do
    p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
    p=${CHECK:-$p}
    t=$(mktemp -d /tmp/trybug.XXXXXX)
    cp -a /repo "$t/repo" && git -C "$t/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch failed"; continue; }
    s=$(date +%s)
    out=$(DST_REPO="$t/repo" sh ./check "$p" 2>&1); rc=$?
    echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep VIOLATION | head -1)"
    [ -n "$V" ] && echo "$out" | tail -25
    rm -rf "$t"
done
