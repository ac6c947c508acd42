#!/bin/bash
# mk.sh ID PROPERTY "needs" "breaks" : take the diff of /tmp/w/r as planted bug ID (main.rs on stdin)
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /tmp/w/r diff > $d/patch.diff
git -C /tmp/w/r checkout -q -- .
cp /verif/tools/demo.sh $d/demo.sh
cat > $d/main.rs
python3 - "$2" "$3" "$4" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
wc -l $d/patch.diff
