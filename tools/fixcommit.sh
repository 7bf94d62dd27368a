#!/bin/bash
# fixcommit.sh "fix: message": build, test and commit the change in /repo
cd /repo || exit 1
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P' || exit 1
import json,sys
d=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(len(d['passed']),'passed',d['failed'])
sys.exit(1 if d['failed'] or len(d['passed'])!=103 else 0)
P
git commit -qam "$1" && git log --oneline | head -1
