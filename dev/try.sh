#!/bin/bash
# Applies a planted bug to /repo, runs checks against it and undoes it: try.sh ID [PROP...]
i=$1; shift
d=/verif/seeded/$i
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 9; }
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  s=$(date +%s); (cd /verif && python3 run.py $p > /tmp/try-$i-$p.log 2>&1); rc=$?
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep -m2 -E 'VIOLATION|inconclusive' /tmp/try-$i-$p.log | cut -c1-150 | tr '\n' ' ')"
done
