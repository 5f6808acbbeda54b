#!/bin/bash
# runs every check (or those in $IDS) at tier $1 (default quick); prints what is not quiet
cd "$(dirname "$0")/.."
for p in ${IDS:-$(python3 -c "import json
for l in open('properties.jsonl'): print(json.loads(l)['id'])")}; do
  ./check.py $p --tier ${1:-quick} > /tmp/all.$p.log 2>&1; rc=$?
  [ $rc = 0 ] || { echo "$p rc=$rc"; grep -E "VIOLATION|ERROR|^\[" /tmp/all.$p.log | head -5; }
done
echo done
