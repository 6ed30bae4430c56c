#!/bin/bash
# development helper: rebuild /repo, run its tests, compare with the baseline
bash /opt/vp/build.sh >/tmp/rt_build.log 2>&1 || { tail -20 /tmp/rt_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/rt.json'));b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b['stable']); pa=set(o['passed'])
print(len(st&pa),'of',len(st),'stable pass; missing:',sorted(st-pa)[:10])
P
