#!/bin/bash
# applies each planted bug to a copy of /repo and runs the check of its property (or the ids given after --) against the copy
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  w=/tmp/seedrun_$d; rm -rf $w; cp -a /repo $w
  git -C $w apply $PWD/seeded/$d/patch.diff || { echo "$d patch does not apply"; continue; }
  id=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  cp -a evidence /tmp/ev_$d 2>/dev/null
  out=$(VERIF_REPO=$w ./run.sh $id 2>&1); rc=$?
  echo "$d $id rc=$rc $(echo "$out" | grep -A1 VIOLATION | tail -1 | cut -c1-150)"
  [ $rc = 1 ] || echo "$out" | tail -5 | cut -c1-300
  rm -rf $w /tmp/ev_$d
done
