#!/bin/bash
# runs the check of each planted change given (or all) against a copy of /repo with the change applied
cd /verif
r=$(mktemp -d /tmp/seedrepo.XXXX); trap 'rm -rf "$r"' EXIT
cp -a /repo $r/repo
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C $r/repo apply /verif/seeded/$s/patch.diff || { echo "$s: DOES NOT APPLY"; continue; }
  VERIF_REPO=$r/repo python3 check.py $p > $r/out 2>&1; rc=$?
  git -C $r/repo checkout -q -- .
  echo "$s $p rc=$rc $(grep VIOLATION $r/out | cut -c1-120) | failed obligations: $(grep -c '^failed obl' $r/out) failing inputs: $(grep -c '^failing input' $r/out) $(grep '^failing input' $r/out | head -1 | cut -c1-60)"
done
