#!/bin/bash
# trybug.sh ID...: the quick check of the bug's property against the planted bug
for id in "$@"; do D=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])"); git -C /repo apply $D/patch.diff || continue; s=$(date +%s); python3 /verif/check.py $p > /tmp/try.log 2>&1; rc=$?; git -C /repo checkout -q -- .; echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -c VIOLATION /tmp/try.log) $(grep -m1 -A1 VIOLATION /tmp/try.log | head -c 200)"; done
