#!/bin/bash
# runs the repository's tests and compares with the list of stable ones
bash /opt/vp/test.sh /tmp/stable-out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/stable-out.json'))
p=set(o['passed'])
print('stable',len(b),'passed',len(p),'MISSING',sorted(b-p)[:20])
P
