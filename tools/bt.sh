#!/bin/bash
# bt.sh: build /repo and run its tests; prints stable tests that do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 -c "
import json
a=json.load(open('/tmp/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('BT',len(a['passed']), set(b['stable'])-set(a['passed']))"
