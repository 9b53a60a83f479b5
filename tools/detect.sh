#!/bin/bash
# detect.sh [ids]: runs each planted bug's check on a patched scratch copy of /repo
cd /verif
W=$(mktemp -d /tmp/detect.XXXX)
for id in ${@:-$(ls seeded)}; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  mkdir -p $W/r; cp -a /repo/src /repo/include $W/r/; (cd $W/r && git init -q . 2>/dev/null; git apply /verif/seeded/$id/patch.diff) || echo "no apply"
  s=$(date +%s); VP_REPO=$W/r VERIF_SEED=1 VERIF_TIER=quick python3-vt -O check.py $P > $W/log 2>&1; rc=$?
  echo "$id $P rc=$rc $(( $(date +%s) - s ))s :: $(grep -c 'failed obligation' $W/log) failed obl, $(grep -c BOUNDED $W/log) bounded :: $(grep VIOLATION $W/log) :: $(grep 'failing input' $W/log | cut -c1-150)"
  grep 'failed obligation' $W/log | head -2 | cut -c1-200
  find $W/r -delete
done
rm -rf "$W"
