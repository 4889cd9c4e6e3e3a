#!/bin/bash
# Development tool: runs checks (quick) on trees whose behaviour is unchanged. usage: tryrefactor.sh "<dirs>" "<properties>"
cd /verif || exit 1
for d in $1; do for p in $2; do
  s=$(date +%s); NS_REPO=$d VERIF_SEED=${VERIF_SEED:-1} python3 run.py $p --tier quick > /tmp/ref.log 2>&1; rc=$?
  echo "$(basename $d) $p rc=$rc $(( $(date +%s) - s ))s $([ $rc = 0 ] || (grep -m1 -v '^VIOL' /tmp/ref.log | cut -c1-300))"
  rm -rf "/verif/out/$p-$(basename $d)"
done; done
