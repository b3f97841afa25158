#!/bin/bash
# rebuild and run the repository's tests; report stable tests lost
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
p=set(o['passed']); l=[t for t in b['stable'] if t not in p]
print('stable lost:',len(l),l[:10])
P
