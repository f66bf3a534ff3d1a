#!/bin/sh
# bugs.sh [id...]: applies each planted change to /repo, runs the check of its property, undoes it.
cd /verif/seeded || exit 1
[ $# -gt 0 ] || set -- *
for id in "$@"; do
    prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    cmd=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$prop': print(c['quick_cmd'])")
    git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    out=$(cd /verif && sh -c "$cmd" 2>&1)
    rc=$?
    git -C /repo checkout -q -- .
    n=$(printf '%s\n' "$out" | grep -c "^VIOLATION property=$prop ")
    echo "$id $prop rc=$rc violations=$n $(printf '%s\n' "$out" | grep " in .*: " | head -1 | cut -c1-160)"
done
