#!/bin/bash
# runs the repository's tests; prints stable ones that do not pass
bash /opt/vp/test.sh /tmp/vt.json; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/vt.json'))
print("missing:",[x for x in b['stable'] if x not in t['passed']])
P
