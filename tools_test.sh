#!/bin/bash
# Run the project's tests and compare with the baseline: tools_test.sh
out=$(mktemp)
bash /opt/vp/test.sh $out > /dev/null 2>&1
python3 - $out <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','tests','stable','stable_tests'):
            if k in x: return set(map(str,x[k]))
    return set(map(str,x))
B=names(b); R=set(map(str,r['passed']))
print("passed",len(R),"baseline",len(B),"missing",sorted(B-R))
P
rm -f "$out"
