#!/bin/bash
# confirm a planted change: builds, passes the stable tests, demonstration fails with it and passes without it
id=$1; d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
fin() { git -C /repo checkout -q -- .; }
trap fin EXIT
bash /opt/vp/build.sh >/tmp/seed.b0 2>&1 || { echo "build0 failed"; exit 1; }
(timeout 300 bash $d/demo.sh >/tmp/seed.d0 2>&1); r0=$?
git apply $d/patch.diff || { echo "does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.b1 2>&1 || { echo "build failed"; tail -5 /tmp/seed.b1; exit 1; }
bash /opt/vp/test.sh /tmp/seed.t.json >/tmp/seed.t 2>&1
(timeout 300 bash $d/demo.sh >/tmp/seed.d1 2>&1); r1=$?
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed.t.json'))
def names(x, key):
    v=x.get(key) if isinstance(x,dict) else None
    return set(v) if isinstance(v,(list,dict)) else set()
bp=names(b,'passed') or names(b,'stable') or names(b,'tests'); tp=names(t,'passed')
print('tests missing:', sorted(bp-tp)[:5], len(bp), len(tp))
P
echo "demo unchanged=$r0 patched=$r1"
tail -2 /tmp/seed.d1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ -z "$NOCHECK" ]; then (cd /verif; timeout 900 python3 run.py $prop 2>&1 | tail -3 | cut -c1-300); fi
git checkout -q -- .; bash /opt/vp/build.sh >/tmp/seed.b0 2>&1
