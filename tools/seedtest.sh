#!/bin/bash
# seedtest.sh ID [CHECKS...]: applies /verif/seeded/ID to /repo, builds, runs
# stable tests, demo and checks, and undoes it.  -q skips tests
id=$1; shift
d=/verif/seeded/$id
git -C /repo status --short | grep -q . && { echo "repo dirty"; exit 9; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
cp -r $d /tmp/seed-$id
(cd /repo && bash /tmp/seed-$id/demo.sh >/tmp/seed-$id.clean 2>&1); echo "$id clean demo rc=$?"
git -C /repo apply $d/patch.diff || exit 8
bash /opt/vp/build.sh >/tmp/seed-$id.build 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/seed-$id.build; exit 7; }
bash /opt/vp/test.sh /tmp/seed-$id.json >/tmp/seed-$id.test 2>&1
python3 -c "
import json;d=json.load(open('/tmp/seed-$id.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=sorted(set(b['stable'])-set(d['passed']));print('$id tests missing:',len(m),m[:5])"
(cd /repo && bash /tmp/seed-$id/demo.sh >/tmp/seed-$id.bad 2>&1); echo "$id bad demo rc=$? $(tail -1 /tmp/seed-$id.bad)"
for c in "$@"; do (cd /verif && ./check $c > /tmp/seed-$id.$c 2>&1; echo "$id $c rc=$? $(grep -m1 'case ' /tmp/seed-$id.$c | cut -c1-200) $(tail -1 /tmp/seed-$id.$c)"); done
rm -rf /tmp/seed-$id
