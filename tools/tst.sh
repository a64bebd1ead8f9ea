#!/bin/bash
# Run the repo's tests and print any stable test that doesn't pass
mkdir -p /tmp/w
bash /opt/vp/test.sh /tmp/w/out.json > /tmp/w/test.log 2>&1
python3 -c "
import json
o=json.load(open('/tmp/w/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('NOT PASSING:', set(b['stable'])-set(o['passed']))"
