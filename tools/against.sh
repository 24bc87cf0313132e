#!/bin/bash
# against.sh BUG [PROPERTY...]: runs the checks (default: that of the bug) against a planted bug
d=/verif/seeded/$1; shift
ps=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply "$d/patch.diff" || exit 3
for p in $ps; do
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash /verif/run.sh $p >/tmp/against.log 2>&1; r=$?
  echo "$(basename $d) $p exit=$r $(( $(date +%s) - s ))s $(grep -A1 -m1 '^suite' /tmp/against.log | cut -c1-300 | tr '\n' ' ')"
done
git -C /repo checkout -- .
