#!/bin/bash
# usage: trymany.sh [-t tier] ID...   Runs the check of each planted bug's property against it (scratch use of /repo).
tier=quick; [ "$1" = -t ] && { tier=$2; shift 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=$tier timeout 900 python3 check.py $prop 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $(echo "$out" | grep -m1 -E 'VIOLATED|ERROR|INCONCL' | cut -c1-220)"
done
