#!/bin/bash
# run the matching check against every planted bug (or the named ones) on /repo, undoing each straight afterwards
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  if ! git -C /repo apply --check /verif/seeded/$d/patch.diff 2>/dev/null; then echo "$d NOAPPLY"; continue; fi
  git -C /repo apply /verif/seeded/$d/patch.diff
  o=$(./check.py $p --tier quick 2>&1); r=$?
  git -C /repo checkout -- .
  echo "$d $p exit=$r $(echo "$o" | grep -c VIOLATION) $(echo "$o" | grep -m1 'VIOLATION\|failing' | cut -c1-160)"
done
