#!/bin/bash
# plant.sh ID PROPERTY: make /verif/seeded/ID from the change in /tmp/w and /tmp/w.main.rs;
# confirms build, tests and the demonstration
id=$1 prop=$2
s=/verif/seeded/$id
mkdir -p $s
git -C /tmp/w diff > $s/patch.diff
[ -s $s/patch.diff ] || { echo EMPTY PATCH; exit 1; }
cp /tmp/w.main.rs $s/main.rs; cp /verif/tools/seed/demo.sh /verif/tools/seed/d.rs $s/
sed 's#/repo#/tmp/w#g' /opt/vp/test.sh > /tmp/w.test.sh
bash /tmp/w.test.sh /tmp/w.out.json > /tmp/w.test.log 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/w.out.json'))['passed'])
m=sorted(b-o); print('tests: missing', len(m), m[:4])
P
cd /tmp/w; bash $s/demo.sh > /tmp/w.demo.bad 2>&1; echo "demo with patch: exit $? $(tail -1 /tmp/w.demo.bad)"
git -C /tmp/w checkout -q -- .
bash $s/demo.sh > /tmp/w.demo.good 2>&1; echo "demo without: exit $? $(tail -1 /tmp/w.demo.good)"
