#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks" : takes the edit in the scratch copy /tmp/w/repo and the demo in /tmp/w/demo, verifies both, stores under seeded/ID
set -e
ID=$1; PROP=$2; NEEDS=$3; WHAT=$4
D=/verif/seeded/$ID
mkdir -p $D
cp /tmp/w/demo/* $D/
git -C /tmp/w/repo diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
python3 - "$PROP" "$NEEDS" "$WHAT" > $D/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
cd /repo; git apply --check $D/patch.diff
bash $D/demo.sh > /tmp/w/clean.log 2>&1 && echo "clean: ok" || { echo "clean: DEMO FAILS"; tail -5 /tmp/w/clean.log; exit 1; }
