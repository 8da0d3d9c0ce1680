#!/bin/bash
# build + test /repo and report stable tests that fail
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o['passed']); bad=[x for x in b['stable'] if x not in p]
print('stable failing:', bad[:10], len(bad))
raise SystemExit(bool(bad))
P
