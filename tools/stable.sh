#!/bin/bash
# Run the repository tests and list stable tests that do not pass.
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "build failed"
t=$(mktemp); bash /opt/vp/test.sh "$t" >/dev/null 2>&1
python3 - "$t" <<'P'
import json,sys
p=set(json.load(open(sys.argv[1]))['passed'])
b=[x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in p]
print('not passing:',b)
P
rm -f "$t"
