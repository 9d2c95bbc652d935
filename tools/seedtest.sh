#!/bin/bash
# tools/seedtest.sh ID [check-args]: confirms a planted bug in /repo's working
# tree (always undone) and runs the property's quick check against it.
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "clean build fails"; exit 2; }
timeout 300 bash $d/demo.sh >/tmp/seed.demo0 2>&1; echo "$id: demo on clean: $?"
git apply --check $d/patch.diff && git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh || { echo "patched build fails"; exit 2; }
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
base=b['stable']
miss=[t for t in base if t not in o['passed']]
print("tests missing:",miss)
P
timeout 300 bash $d/demo.sh >/tmp/seed.demo1 2>&1; echo "$id: demo on patched: $?"; tail -3 /tmp/seed.demo1
cd /verif; timeout 900 python3 check.py $prop "$@" 2>&1 | cut -c1-500 | tail -6
echo "$id: check $prop exit ${PIPESTATUS[0]}"
