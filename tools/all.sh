#!/bin/bash
# run every claimed check (quick) and print the failures: tools/all.sh [ids...]
cd "$(dirname "$0")/.." || exit 2
ids=${*:-$(python3 -c "import json;print(*sorted(json.load(open('tools/levels.json'))))")}
bad=0
for i in $ids; do
    f=checks/$(echo "$i" | tr 'P' 'p').py
    s=$(date +%s)
    timeout 900 python3 "$f" quick > /tmp/all.$i.log 2>&1; rc=$?
    echo "$i rc=$rc $(( $(date +%s) - s ))s $(tail -1 /tmp/all.$i.log)"
    [ $rc = 0 ] || bad=1
done
exit $bad
