#!/bin/bash
# seedcatch.sh ID... : runs the property's check against planted bugs (patch applied to /repo and undone)
for id in "$@"; do
 s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
 git -C /repo apply $s/patch.diff || continue
 t0=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash /verif/run.sh $p > /tmp/catch.$id 2>&1; rc=$?
 git -C /repo checkout -q -- .
 echo "$id $p rc=$rc $(($(date +%s)-t0))s $(grep -a VIOLATION /tmp/catch.$id | head -1)"
done
