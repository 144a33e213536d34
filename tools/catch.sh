#!/bin/bash
# catch.sh [ID...]: applies each planted bug to /repo, runs the check of its property (or $PROPS), undoes it.
cd /verif
ids=${@:-$(ls seeded)}
for b in $ids; do
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  p=${PROPS:-$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")}
  for q in $p; do
    out=$(timeout 850 python3 tools/check.py $q 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$q " <<<"$out"; then
      echo "CAUGHT $b by $q: $(grep '^property' <<<"$out" | cut -c1-220)"
    else echo "MISSED $b by $q (exit $rc): $(tail -2 <<<"$out" | cut -c1-300)"; fi
  done
  git -C /repo checkout -- .
done
