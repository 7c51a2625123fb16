#!/bin/bash
# trybug.sh ID...: confirm planted bugs (tests pass, demo 0 -> nonzero) and run the property's check on each
for id in "$@"; do
  S=/verif/seeded/$id; W=$(mktemp -d /tmp/bug.XXXX)
  cp -a /repo/. $W/ ; cd $W
  bash $S/demo.sh >/tmp/demo0.log 2>&1; d0=$?
  git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  cargo test --offline >/tmp/bugtest.log 2>&1; t=$?
  bash $S/demo.sh >/tmp/demo1.log 2>&1; d1=$?
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /repo; git apply $S/patch.diff
  (cd /verif; python3 run.py $P quick) >/tmp/bugchk.$id.log 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$id $P: demo $d0 -> $d1, tests rc $t, check rc $c: $(grep -m1 '^violated' /tmp/bugchk.$id.log | cut -c1-150)"
  /bin/rm -rf "$W"
done
