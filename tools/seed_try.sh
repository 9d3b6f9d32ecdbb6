#!/bin/bash
# seed_try.sh ID...: apply each planted bug to /repo, run its property's check (and with TESTS=1 the stable tests), undo it
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 1; }
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if [ -n "$TESTS" ]; then bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1; python3 -c "
import json;o=json.load(open('/tmp/seed_out.json'));b=json.load(open('/opt/vp/BASELINE.json'));p=set(o['passed']);print('$id tests broken:',[t for t in b['stable'] if t not in p])"; fi
  s=$(date +%s); timeout 900 bash /verif/check.sh $prop > /tmp/seed_$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/seed_$id.log) :: $(grep -m1 -B0 '^  ' /tmp/seed_$id.log | cut -c1-200)"
done
