#!/bin/bash
# Development tool: runs each planted bug's own property check (quick) on a scratch copy of /repo. usage: trybugs.sh [id...]
cd "$(dirname "$0")/.." || exit 1; V=$PWD
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=/tmp/try$$-$id; rm -rf "/tmp/try$$-$id"; mkdir -p $d; git -C /repo archive HEAD | tar x -C $d
  (cd $d && git apply --unsafe-paths $V/seeded/$id/patch.diff 2>/dev/null || patch -s -p1 < $V/seeded/$id/patch.diff)
  s=$(date +%s)
  NS_REPO=$d VERIF_SEED=${VERIF_SEED:-1} python3 run.py ${P:-$p} --tier quick > /tmp/try$$.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/try$$.log | cut -c1-160)"
  rm -rf "/tmp/try$$-$id" "$V/out/$p-try$$-$id"
done
