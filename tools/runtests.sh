#!/bin/bash
# run the stable tests of /repo; exit 0 when all stable ones pass
O=$(mktemp /tmp/vtXXXX.json)
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD-FAIL; exit 1; }
bash /opt/vp/test.sh $O >/dev/null 2>&1
python3 - $O <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print('stable',len(b['stable']),'missing',miss); sys.exit(1 if miss else 0)
P
r=$?; /bin/rm -f "$O"; exit $r
