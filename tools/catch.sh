#!/bin/bash
# catch.sh ID...: run the check of a planted bug's property with it applied to /repo, then undo it.
for ID in "$@"; do
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
[ -n "$CHECK" ] && P=$CHECK
git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "$ID: does not apply"; continue; }
cd /verif && timeout 900 ./run.sh $P --no-evidence > /tmp/catch.$ID.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$ID ($P): rc=$rc $(grep -c ^VIOLATION /tmp/catch.$ID.log) $(grep -E ' runs, ' /tmp/catch.$ID.log | cut -c1-60)"; tail -2 /tmp/catch.$ID.log | head -1 | cut -c1-300
done
