#!/bin/bash
# plant.sh <id> [nocheck]: confirm one planted change in /repo (build, stable tests, demonstration) and run its property's check; undoes it afterwards
V=/verif; D=$V/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; [ -z "$(git status --short)" ] || { echo "repo not clean"; exit 9; }
undo() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; }
trap undo EXIT
if [ "$2" != nobase ]; then bash /opt/vp/build.sh >/tmp/plant.log 2>&1; timeout 300 bash $D/demo.sh >/tmp/plant.demo0 2>&1; echo "$1: demo unchanged: $?"; fi
git apply $D/patch.diff || { echo "$1: patch does not apply"; exit 9; }
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo "$1: BUILD FAILED"; tail -5 /tmp/plant.log; exit 9; }
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant.test 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
def s(x):
    for k in ('passed','stable','tests'):
        if k in x and isinstance(x[k], list): return set(map(str,x[k]))
    return set()
B=s(b); R=s(r); print("tests: baseline", len(B), "missing", len(B-R))
PY
timeout 300 bash $D/demo.sh >/tmp/plant.demo1 2>&1; echo "$1: demo with patch: $? $(tail -1 /tmp/plant.demo1)"
if [ "$2" != nocheck ]; then for q in $P $3; do VERIF_SEED=1 timeout 900 bash $V/check.sh $q >/tmp/plant.check 2>&1; echo "$1: check $q: $? $(grep -h '^VIOLATION\|^seed' /tmp/plant.check | tr '\n' ' ' | cut -c1-300)"; done; fi
