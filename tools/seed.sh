#!/bin/bash
# seed.sh ID PROP: takes the current diff of /repo as seeded bug ID of PROP, confirms it, undoes it.
# The demo files must already lie in /verif/seeded/ID. meta text in $NEEDS, $BREAKS.
id=$1; prop=$2; d=/verif/seeded/$id
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
python3 - "$d" "$prop" <<'P'
import json,os,sys
json.dump({"property":sys.argv[2],"needs":os.environ.get("NEEDS",""),"what_it_breaks":os.environ.get("BREAKS","")},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
(cd /verif && python3 check.py $prop | head -3 | cut -c1-220)
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD-FAILED; tail -5 /tmp/b.log; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=set(json.load(open('/tmp/t.json'))['passed'])
print('tests lost:', sorted(b-t)[:5])
P
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.bad 2>&1; echo "demo with bug: rc=$?"; tail -2 /tmp/demo.bad | cut -c1-200)
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/b.log 2>&1
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo.ok 2>&1; echo "demo without: rc=$?"; tail -2 /tmp/demo.ok | cut -c1-200)
