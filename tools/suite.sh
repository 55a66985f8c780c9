#!/bin/bash
# Runs the repository's tests and compares with the baseline.
bash /opt/vp/test.sh /tmp/suite.json >/tmp/suite.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/suite.json'))
base=b.get('passed') or b.get('stable') or b
base=set(base if isinstance(base,list) else base)
miss=base-set(r['passed'])
print('baseline',len(base),'passed',len(r['passed']),'missing',sorted(miss)[:10])
P
