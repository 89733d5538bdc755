#!/bin/bash
# tryseed.sh ID [test]: demo on the clean tree, then patch /repo, build, demo, the property's check, stable tests; undo
id=$1; S=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
bash /opt/vp/build.sh >/dev/null || exit 2
bash "$S/demo.sh" > /tmp/w/seed_demo0 2>&1; echo "$id: demo clean rc=$?"
git apply "$S/patch.diff" || exit 2
bash /opt/vp/build.sh > /tmp/w/seed_build 2>&1 || echo "BUILD FAILS"
bash "$S/demo.sh" > /tmp/w/seed_demo1 2>&1; echo "$id: demo patched rc=$?"
( cd /verif; python3 -m mzv.$(echo $prop | tr A-Z a-z) quick > /tmp/w/seed_check 2>&1; echo "$id: check $prop rc=$? $(grep -a ^VIOLATION /tmp/w/seed_check)" )
if [ "$2" = test ]; then
  bash /opt/vp/test.sh /tmp/w/seed_test.json > /dev/null 2>&1
  python3 - <<'EOF'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/w/seed_test.json'))
base=set(b['stable'])
print("stable tests broken:", sorted(base-set(t['passed']))[:5])
EOF
fi
git checkout -q -- .
rm -rf /verif/replays/*
