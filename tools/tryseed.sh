#!/bin/bash
# tryseed.sh ID...  -- applies each planted bug to /repo, builds, tests, runs demo and the check of its property, and undoes it
V=/verif
for ID in "$@"; do
S=$V/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo not clean"; exit 1; }
( cd /repo && bash $S/demo.sh > /tmp/demo0.log 2>&1 ); d0=$?
git -C /repo apply $S/patch.diff || { echo "$ID does not apply"; continue; }
bash /opt/vp/build.sh > /tmp/b.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
t=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests','pass'):
            if k in x: return set(x[k]) if isinstance(x[k],list) else {n for n,v in x[k].items() if v in ('pass','passed',True)}
    return set()
m=names(b)-names(t); print('tests-ok' if not m else 'TESTS-FAIL %s'%sorted(m)[:3])
PY
)
( cd /repo && bash $S/demo.sh > /tmp/demo1.log 2>&1 ); d1=$?
( cd $V && VERIF_SEED=1 python3 check.py $P > /tmp/c.log 2>&1 ); c=$?
git -C /repo checkout -q -- .
echo "$ID [$P] demo clean=$d0 (want 0) build=$b (0) $t demo patched=$d1 (not 0) check=$c: $(grep -E '^VIOLATION|UNDECIDED|failed obl|failing' /tmp/c.log | cut -c1-220 | head -4)"
done
