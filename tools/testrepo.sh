#!/bin/bash
# builds /repo and runs its tests; prints how many passed and failed
bash /opt/vp/build.sh >/tmp/tr.log 2>&1 || { tail -20 /tmp/tr.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/tr.log 2>&1
python3 -c "
import json;o=json.load(open('/tmp/o.json'))
print({k:len(v) for k,v in o.items()}, o['failed'][:5])"
