#!/bin/bash
# run the repo's tests (on /repo) and report stable tests that no longer pass
bash /opt/vp/test.sh /tmp/stable.json > /tmp/stable.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/stable.json'))
print('stable', len(b['stable']), 'missing:', [t for t in b['stable'] if t not in set(r['passed'])])"
