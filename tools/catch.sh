#!/bin/bash
# usage: catch.sh [ID...]  -- applies every planted bug (or the given ones) to /repo in turn, runs the check of
# its property (quick) and says whether it was reported.  A development tool.
cd /verif/seeded || exit 2
for b in ${@:-*/}; do
  b=${b%/}
  p=$(python3 -c "import json,sys; print(json.load(open('$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  out=$(timeout 900 bash /verif/check.sh $p ${TIER:-quick} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<<"$out"; then echo "caught $b by $p: $(grep -m1 -v '^VIOLATION' <<<"$out" | cut -c1-150)"
  else echo "MISSED $b by $p rc=$rc: $(tail -1 <<<"$out" | cut -c1-200)"; fi
done
