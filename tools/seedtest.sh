#!/bin/bash
# seedtest.sh ID [CHECK...]: confirms a planted bug in a scratch copy of /repo
# (applies, builds, stable tests pass, demo fails with it and passes without),
# then runs the CHECKs (default: the property's own) with it applied to /repo.
id=$1; shift
s=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
checks=${*:-$prop}
(cd /repo && bash $s/demo.sh > /tmp/w/demo.clean 2>&1) && echo "$id demo clean: ok" || { echo "$id demo clean: FAILS"; tail -5 /tmp/w/demo.clean; }
git -C /repo apply $s/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .; git -C /repo clean -fdq' EXIT
bash /opt/vp/build.sh > /tmp/w/seed.build 2>&1 && echo "$id builds" || { echo "$id DOES NOT BUILD"; tail /tmp/w/seed.build; }
bash /opt/vp/test.sh /tmp/w/seed.json > /tmp/w/seed.test 2>&1
cp /tmp/w/seed.json /tmp/w/o.json; echo "$id missing tests: $(python3 /tmp/w/cmpb.py)"
(cd /repo && bash $s/demo.sh > /tmp/w/demo.bug 2>&1) && echo "$id demo with bug: PASSES" || { echo "$id demo with bug: fails ok"; tail -2 /tmp/w/demo.bug; }
for c in $checks; do
  (cd /verif && timeout 900 ./check $c quick > /tmp/w/seed.$id.$c 2>&1); r=$?
  echo "$id check $c: exit $r $(grep -m1 VIOLATION /tmp/w/seed.$id.$c)"
done
