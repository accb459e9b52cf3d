#!/bin/bash
# usage: all.sh [quick|thorough]  -- every check in turn, one line each.  A development tool.
for id in $(python3 -c "import json; [print(json.loads(l)['id']) for l in open('/verif/properties.jsonl')]"); do
  s=$(date +%s); out=$(/verif/check.sh $id ${1:-quick} 2>&1); rc=$?
  echo "$id rc=$rc $(( $(date +%s)-s ))s $(tail -1 <<<"$out"|cut -c1-170)"
  [ $rc = 0 ] || head -5 <<<"$out"
done
