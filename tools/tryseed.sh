#!/bin/bash
# tryseed.sh [TIER] ID...: apply each planted bug to /repo, run its property's check, undo it
tier=quick; case $1 in quick|thorough) tier=$1; shift;; esac
[ $# = 0 ] && set -- $(ls /verif/seeded)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  t0=$(date +%s)
  o=$(cd /verif && ./check.sh ${P:-$p} $tier 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 ^VIOLATION <<<"$o")"
  [ $rc = 1 ] || tail -3 <<<"$o"
done
