#!/bin/bash
# run every check on the current /repo (or $SKY_REPO), two at a time
cd "$(dirname "$0")/.."
python3 sa/build.py >/dev/null || exit 1
python3 -c "import json;print('\n'.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))" |
  xargs -P 6 -I{} sh -c 's=$(date +%s); o=$(timeout 900 python3 check.py {} 2>&1); r=$?; echo "{} exit=$r $(( $(date +%s)-s ))s $(echo "$o" | grep -E "VIOLATION|KNOWN|Error" | head -3)"' | sort
