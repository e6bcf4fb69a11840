#!/bin/bash
# runseed.sh <id> [check...]: apply the seeded patch to /repo, run the checks (default: the seed's property), undo.
ID=$1; shift; SD=/verif/seeded/$ID
P=${@:-$(python3 -c "import json;print(json.load(open('$SD/meta.json'))['property'])")}
git -C /repo apply "$SD/patch.diff" || exit 2
for c in $P; do (cd /verif; python3 check.py $c | cut -c1-260 | grep -vE '^      via' ; echo "rc=${PIPESTATUS[0]}"); done
git -C /repo checkout -- .
