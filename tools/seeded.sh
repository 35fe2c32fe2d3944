#!/bin/bash
# usage: seeded.sh [id ...]   applies each planted bug to /repo, runs the quick check of its property and undoes it
cd /verif/seeded || exit 1
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "${@:-$(ls)}"; do for b in $id; do
  prop=${CHECK:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $b/meta.json)}
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  t0=$(date +%s)
  out=$(bash /verif/check.sh $prop quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  v=$(echo "$out" | grep "^VIOLATION property=$prop" | head -1)
  if [ $rc = 1 ] && [ -n "$v" ]; then echo "$b CAUGHT by $prop ($(( $(date +%s)-t0 )) s)"; echo "$out" | grep -A3 '^VIOLATION' | sed -n 2,3p | cut -c1-200 | sed 's/^/    /'
  else echo "$b MISSED by $prop rc=$rc"; echo "$out" | tail -3; fi
done; done
