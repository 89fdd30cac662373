#!/bin/bash
# catch.sh ID..: run the quick check of each planted bug's property with the bug applied to /repo
cd /verif
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 1; }
  git -C /repo apply /verif/seeded/$i/patch.diff || exit 1
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash check.sh check --property ${PROP:-$p} --tier quick >/tmp/catch.$i.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/catch.$i.out) $([ $rc = 3 ] && tail -5 /tmp/catch.$i.out)"
done
