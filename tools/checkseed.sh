#!/bin/bash
# checkseed.sh ID... : runs the check of the property against the planted bug in a scratch copy of /repo
for s in "$@"; do
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
rm -rf /tmp/w/r2; mkdir -p /tmp/w/r2; cp -a /repo/src /repo/.git /tmp/w/r2/ ; (cd /tmp/w/r2 && git checkout -q -- src && git apply /verif/seeded/$s/patch.diff)
echo "== $s $P: $(VERIF_REPO=/tmp/w/r2 python3 /verif/check.py $P --tier quick 2>&1 | tail -3 | tr '\n' '|')"
done
