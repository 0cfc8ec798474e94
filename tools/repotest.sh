#!/bin/bash
# development aid: rebuilds /repo, runs its tests, compares with the stable list
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { tail -30 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json > /tmp/test.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/o.json'))
m=b-set(o['passed']); print('stable',len(b),'missing',len(m),sorted(m)[:10])
raise SystemExit(1 if m else 0)
P
