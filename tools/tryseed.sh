#!/bin/bash
# tryseed.sh ID : applies the planted bug to /repo, builds, runs its tests and demo, undoes it
D=/verif/seeded/$1
cd /repo; git apply $D/patch.diff
bash /opt/vp/build.sh > /tmp/w/build.log 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/w/test.json > /tmp/w/test.log 2>&1; python3 -c "
import json; d=json.load(open('/tmp/w/test.json')); print('tests', {k:(len(v) if hasattr(v,'__len__') else v) for k,v in d.items()})"
if bash $D/demo.sh > /tmp/w/bug.log 2>&1; then echo "bug: DEMO PASSES (bad)"; else echo "bug: demo fails as wanted"; tail -2 /tmp/w/bug.log; fi
git -C /repo checkout -- . ; bash /opt/vp/build.sh > /tmp/w/build.log 2>&1
git -C /repo status --short
