#!/bin/bash
# catch.sh ID [PROPERTY...]: runs the check(s) against /repo with the planted change applied, then undoes it.
ID=$1; shift; S=/verif/seeded/$ID
P="${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}"
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
git -C /repo apply $S/patch.diff || exit 1
for p in $P; do
  t0=$(date +%s); /verif/check.sh $p > /tmp/catch.$ID.$p.out 2>&1; r=$?
  echo "$ID $p: exit $r ($(( $(date +%s)-t0 ))s) $(grep -c . /tmp/catch.$ID.$p.out) lines: $(head -c 300 /tmp/catch.$ID.$p.out | tr '\n' ' ')"
done
git -C /repo checkout -q -- .
