#!/bin/bash
# val.sh ID...: validate seeded bugs
for id in "$@"; do
d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
(cd /repo; bash $d/demo.sh >/tmp/seed/$id.clean 2>&1); c=$?
git -C /repo apply $d/patch.diff || { echo "$id apply failed"; continue; }
bash /opt/vp/build.sh >/tmp/seed/$id.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seed/$id.json >/tmp/seed/$id.test 2>&1
t=$(python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed/$id.json'))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if k in x: return x[k]
    return x
bs=names(base); ps=names(r)
bs=set(bs if isinstance(bs,list) else bs.keys()); ps=set(ps if isinstance(ps,list) else [k for k,v in ps.items() if v in('pass','passed',True)])
print('ok' if bs<=ps else 'MISSING %s'%(bs-ps))
P
)
(cd /repo; bash $d/demo.sh >/tmp/seed/$id.bug 2>&1); m=$?
k=-
if [ -z "$NOCHECK" ]; then (cd /verif; bash check.sh $p >/tmp/seed/$id.check 2>&1); k=$?; fi
git -C /repo checkout -- .
v=$(grep -c "^VIOLATION property=$p" /tmp/seed/$id.check 2>/dev/null)
echo "$id $p clean=$c build=$b tests=$t demo=$m check=$k viol=$v"
done
