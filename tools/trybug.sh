#!/bin/bash
# trybug.sh ID...: build+test with the bug, run its property's check (development helper)
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id APPLY-FAIL"; continue; }
  if [ -z "$NOBUILD" ]; then bash /opt/vp/build.sh >/tmp/tb.log 2>&1 && bash /opt/vp/test.sh /tmp/tb.json >>/tmp/tb.log 2>&1 || echo "$id build/test problem"; fi
  out=$(cd /verif && python3 run.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
done
