#!/bin/bash
# mkseed.sh <id> <prop> <needs> <breaks> : capture the working-tree diff of /tmp/sd/r as a seeded change; demo.rs on stdin
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/sd/r diff > $D/patch.diff; git -C /tmp/sd/r checkout -q -- .
[ -t 0 ] || cat > $D/demo.rs
cp /verif/tools/demo_template.sh $D/demo.sh; chmod +x $D/demo.sh
python3 - "$@" <<'P'
import json,sys
i,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
wc -l $D/patch.diff
