#!/bin/bash
# detect.sh ID...: applies each planted bug to /repo in turn and runs its property's quick check.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || continue
  s=$(date +%s)
  timeout 900 bash run.sh ${PROP:-$p} ${TIER:-quick} > /tmp/detect.$id.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id ${PROP:-$p} rc=$rc $(($(date +%s)-s))s $(grep -c '^VIOLATION' /tmp/detect.$id.out)"
done
