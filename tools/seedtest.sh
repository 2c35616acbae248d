#!/bin/bash
# seedtest.sh ID [nocheck]: confirm a planted bug (applied to /repo, undone afterwards)
id=$1; d=/verif/seeded/$id; log=/tmp/seed-$id.log; : > $log
git -C /repo diff --quiet || { echo "repo dirty"; exit 9; }
bash /opt/vp/build.sh userspace >>$log 2>&1
mkdir -p /tmp/seedrun-$id; cp $d/* /tmp/seedrun-$id/; rm -f /tmp/seedrun-$id/patch.diff /tmp/seedrun-$id/meta.json
(cd /repo && timeout 300 bash /tmp/seedrun-$id/demo.sh >>$log 2>&1); echo "$id demo clean: $?"
git -C /repo apply $d/patch.diff || exit 8
bash /opt/vp/build.sh userspace >>$log 2>&1; echo "$id build: $?"
bash /opt/vp/test.sh /tmp/seed-$id.json >>$log 2>&1
python3 - "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed-%s.json'%sys.argv[1]))
def names(x,k): 
    v=x.get(k) or []
    return set(v if isinstance(v,list) else v.keys())
bp=b if isinstance(b,list) else (names(b,'passed') or names(b,'stable') or names(b,'tests'))
print(sys.argv[1],'baseline tests now failing:', sorted(set(bp)-names(o,'passed'))[:5])
P
(cd /repo && timeout 300 bash /tmp/seedrun-$id/demo.sh >>$log 2>&1); echo "$id demo bug: $?"
if [ "$2" != nocheck ]; then
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /verif && VERIF_SEED=1 timeout 900 python3 check.py $p 2>&1 | cut -c1-300 | tail -${TAILN:-6}); fi
git -C /repo checkout -q -- . ; rm -rf /tmp/seedrun-$id
