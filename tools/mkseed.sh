#!/bin/bash
# mkseed.sh <id>: verify /verif/seeded/<id> (patch.diff, demo.sh, meta.json): applies, builds, passes the tests, demo is
# 0 without / non-zero with the patch, and say whether the check of its property catches it.
set -u
id=$1; S=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
trap 'git -C /repo checkout -- .' EXIT
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d /tmp/seeddemo.XXXX); cp -r $S/. $D/; rm -f $D/patch.diff $D/meta.json
(bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1) || { echo "$id: base build failed"; exit 1; }
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/seed_demo0.log 2>&1); r0=$?
git -C /repo apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
(bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1) || { echo "$id: build failed"; exit 1; }
bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1
t=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
base=b.get('stable') or b.get('passed') or b.get('tests') or b
passed=set(o.get('passed',[]))
miss=[x for x in base if x not in passed]
print('tests-ok' if not miss else 'TESTS-FAIL '+str(miss[:5]))
PY
)
(cd /repo && timeout 300 bash $D/demo.sh >/tmp/seed_demo1.log 2>&1); r1=$?
rm -rf "$D"
c=$(cd /verif && timeout 900 python3 check.py $prop quick 2>&1); rc=$?
echo "$id: $prop demo base=$r0 patched=$r1 $t check=$rc $(echo "$c" | grep -m2 -A1 VIOLATION | tr '\n' ' ' | cut -c1-200)"
[ $rc -le 1 ] || echo "$c" | tail -5
