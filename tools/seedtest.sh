#!/bin/bash
# seedtest.sh ID...: tries each planted change in a scratch copy: demo on the clean tree, build, tests, demo, the check.
cd /verif
for id in "$@"; do
  s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  (cd /repo && bash $s/demo.sh >/tmp/sd.$id.0 2>&1); c=$?
  git -C /repo apply $s/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/sb.$id 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/st.$id.json >/dev/null 2>&1
  t=$(python3 - <<P
import json
r=json.load(open('/tmp/st.$id.json')); s=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=r.get('passed', r)
print(len([x for x in s if x not in p]))
P
)
  (cd /repo && bash $s/demo.sh >/tmp/sd.$id.1 2>&1); d=$?
  timeout 900 python3 check.py ${CHECKS:-$prop} >/tmp/sc.$id 2>&1; k=$?
  git -C /repo checkout -- .
  echo "$id $prop: clean demo=$c build=$b tests-missing=$t demo=$d check=$k $(grep -c VIOLATION /tmp/sc.$id)"
done
