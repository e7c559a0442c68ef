#!/bin/bash
# run the repository's tests and compare with the stable baseline
T=$(mktemp -d); bash /opt/vp/test.sh $T/o.json >$T/log 2>&1
python3 - $T/o.json <<'P'
import json,sys
o=json.load(open(sys.argv[1]));b=json.load(open('/opt/vp/BASELINE.json'))
miss=[x for x in b['stable'] if x not in o['passed']]
print("stable %d, missing: %s"%(len(b['stable']),miss))
P
rm -rf "$T"
