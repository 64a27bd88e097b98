#!/bin/bash
# seedtest.sh ID [check...]: confirms a planted bug (build, tests, demo) and runs the check of its property against it.
id=$1; shift
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 3; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
trap 'git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
s=$(mktemp -d); cp $d/* $s/
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1 || { echo "$id build0 FAIL"; exit 1; }
(cd /repo && timeout 300 bash $s/demo.sh >/tmp/seed_d0.log 2>&1); r0=$?
git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1 || { echo "$id build FAIL"; tail -20 /tmp/seed_b.log; exit 1; }
bash /opt/vp/test.sh /tmp/seed_o.json >/tmp/seed_t.log 2>&1
python3 - <<'P'
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed_o.json'))
print("tests passed", len(o['passed']), "failed", o['failed'][:5])
P
(cd /repo && timeout 300 bash $s/demo.sh >/tmp/seed_d1.log 2>&1); r1=$?
echo "$id demo unchanged=$r0 patched=$r1"
else
git -C /repo apply $d/patch.diff || exit 1
fi
rm -rf $s
[ -n "$NOCHECK" ] || for p in ${@:-$prop}; do (cd /verif && timeout 900 python3 check.py $p quick >/tmp/seed_c.log 2>&1; echo "$id check $p rc=$? $(grep -c ^VIOLATION /tmp/seed_c.log) $(tail -1 /tmp/seed_c.log | cut -c1-200)"); done
