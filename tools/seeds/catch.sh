#!/bin/bash
# Applies each planted change to a scratch copy and runs its property's check on it.
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  d=$(mktemp -d /tmp/catch-XXXXXX); cp -a /repo $d/repo; git -C $d/repo apply /verif/seeded/$i/patch.diff || echo "$i PATCH FAILS"
  s=$(date +%s); o=$(VERIF_REPO=$d/repo timeout 900 ./check.sh $p quick 2>&1); rc=$?; e=$(date +%s)
  echo "$i $p rc=$rc $((e-s))s $(echo "$o" | grep -m1 VIOLATION | cut -c1-160)"
  [ $rc = 1 ] || echo "$o" | tail -5
  rm -rf "$d"
done
