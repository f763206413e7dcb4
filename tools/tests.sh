#!/bin/bash
# builds /repo, runs its tests and compares with the stable list
bash /opt/vp/build.sh >/tmp/bl.log 2>&1 || { tail -5 /tmp/bl.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/t.json')); m=[x for x in b if x not in t['passed']]
print(len(b), 'stable,', 'missing', m)
P
