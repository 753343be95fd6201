#!/bin/bash
# seed.sh ID...: apply seeded/ID/patch.diff to /repo, build, run the stable tests, the demo and the property's check, undo
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash /opt/vp/build.sh >/tmp/seed.b 2>&1 || echo "$id: clean build FAILED"
  timeout 300 bash $d/demo.sh >/tmp/seed.demo0 2>&1; d0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.b 2>&1 || echo "$id: build FAILED"
  bash /opt/vp/test.sh /tmp/seed.o >/dev/null 2>&1
  t=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/seed.o'))['passed'])
print(len(b-o), list(b-o)[:3])
P
)
  timeout 300 bash $d/demo.sh >/tmp/seed.demo1 2>&1; d1=$?
  c=-; [ -n "$NOCHECK" ] || { (cd /verif; timeout 900 ./check $p >/tmp/seed.c 2>&1); c=$?; v=$(grep -c "^VIOLATION property=$p" /tmp/seed.c); }
  git checkout -q -- .
  echo "$id ($p): failing tests $t; demo clean=$d0 patched=$d1; check exit=$c violations=$v"
done
bash /opt/vp/build.sh >/dev/null 2>&1
