#!/bin/bash
# tools/trybug.sh ID [CHECK]: demo on the clean tree, then with the bug: build, stable tests, demo, check; always undone.
cd /repo || exit 2
git diff --quiet || { echo "repo dirty"; exit 2; }
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d /tmp/demo.XXXX); cp -r $S/. $D; rm -f $D/*.diff $D/meta.json
bash $D/demo.sh > /tmp/demo_clean.log 2>&1; echo "demo clean: $?"
git apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .; rm -r "$D"' EXIT
bash /opt/vp/build.sh > /tmp/try_build.log 2>&1 || echo "BUILD FAILED"
bash /opt/vp/test.sh /tmp/try_t.json 2>&1 | tail -1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/try_t.json'))
base=b.get('stable') or b.get('passed') or b
lost=set(base)-set(t['passed'])
print("stable tests lost:", len(lost), sorted(lost)[:4])
P
bash $D/demo.sh > /tmp/demo_bug.log 2>&1; echo "demo with bug: $?"
cd /verif && python3 check.py ${2:-$P} > /tmp/try_check.log 2>/tmp/try_check.err; echo "check ${2:-$P}: $?"; grep -m2 VIOLATION /tmp/try_check.log; grep -m1 "violation:\|ERROR" /tmp/try_check.err | cut -c1-400
