#!/bin/bash
# tools/tryseed.sh ID...: validates seeded bugs on /repo (patch applied, then undone) and runs their property's check.
. /verif/env.sh
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; git diff --quiet || { echo "repo dirty"; exit 1; }
  r="$id $p"
  bash $d/demo.sh >/tmp/w/demo0.log 2>&1; r="$r demo0=$?"
  if ! git apply $d/patch.diff; then echo "$r PATCH-FAILS"; continue; fi
  if bash /opt/vp/build.sh >/tmp/w/build.log 2>&1; then
    bash $d/demo.sh >/tmp/w/demo1.log 2>&1; r="$r demo1=$?"
    if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/w/t.json >/dev/null 2>&1
    r="$r missing-tests=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('/tmp/w/t.json'))
ok=set(t.get('passed',t.get('pass',[])))
print([x for x in b if x not in ok][:3])
P
)"; fi
    if [ -z "$NOCHECK" ] && grep -q "\"property\": \"$p\"" /verif/MANIFEST.json; then (cd /verif && ./check.sh $p >/tmp/w/check.log 2>&1; echo $? >/tmp/w/rc); r="$r check=$(cat /tmp/w/rc) $(grep VIOLATION /tmp/w/check.log|head -1)"; fi
  else r="$r BUILD-FAILS"; fi
  git checkout -q -- .
  echo "$r"
done
