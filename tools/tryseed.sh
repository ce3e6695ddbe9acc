#!/bin/bash
# tryseed.sh ID [nocheck]   Confirm a planted bug: it builds, passes the tests, its demo notices it, and so does its check.
id=$1
D=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { echo "unpatched build fails"; exit 2; }
(cd /repo && timeout 300 "$D/demo.sh" >/tmp/seed.demo0 2>&1); echo "$id clean demo: $?"
git -C /repo apply "$D/patch.diff" || { echo "does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed.log 2>&1; echo "$id build: $?"
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1; echo "$id tests: $(tail -1 /tmp/seed.log)"
(cd /repo && timeout 300 "$D/demo.sh" >/tmp/seed.demo1 2>&1); echo "$id patched demo: $? $(tail -1 /tmp/seed.demo1 | cut -c1-150)"
[ -n "$2" ] || { cd /verif; timeout 900 ./run.sh check "$prop" 2>/tmp/seed.err | tail -3; echo "$id check $prop: ${PIPESTATUS[0]}"; }
