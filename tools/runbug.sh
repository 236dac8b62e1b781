#!/bin/bash
# runbug.sh ID...: does the property's check catch the planted bug?
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  (cd /verif && /opt/venv/bin/python -B run.py $p > /tmp/runbug.out 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" /tmp/runbug.out; then echo "$id $p caught: $(grep -m1 'violation 1' /tmp/runbug.out | cut -c1-200)"; else echo "$id $p MISSED rc=$rc"; fi
done
