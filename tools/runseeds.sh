#!/bin/bash
# runseeds.sh [ID...]: applies each planted bug to a scratch clone of /repo, runs its property's quick check there
cd /verif
S=/tmp/runseedrepo
[ -d $S ] || git clone -q /repo $S
git -C $S fetch -q /repo HEAD && git -C $S checkout -q -f FETCH_HEAD
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C $S checkout -q -- .
  git -C $S apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_REPO=$S timeout 900 python3 run_check.py ${CHECK:-$p} 2>&1); rc=$?
  git -C $S checkout -q -- .
  echo "$d ${CHECK:-$p} rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -A1 VIOLATION | head -2 | cut -c1-200 | tr '\n' ' ')"
done
