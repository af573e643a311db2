#!/bin/bash
# seed.sh ID...: confirms planted bugs: demo passes unpatched; patched: builds, stable tests pass, demo fails; runs the property's check.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "repo not clean"; exit 1; }
  s=""
  if [ -z "$CHECKONLY" ]; then
  (cd /repo && bash $d/demo.sh > /tmp/seed_$id.un 2>&1) && s="$s demo-unpatched=0" || s="$s DEMO-UNPATCHED-FAILS"
  fi
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$CHECKONLY" ]; then
  bash /opt/vp/build.sh > /tmp/seed_$id.build 2>&1 && s="$s build=ok" || s="$s BUILD-FAILS"
  bash /opt/vp/test.sh /tmp/seed_$id.json > /dev/null 2>&1
  s="$s $(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_$id.json'))
def names(x,k):
    v=x.get(k,[]); return set(v)
base=set(b['stable'])
got=names(r,'passed') or names(r,'pass')
print('tests=ok' if base<=got and base else 'TESTS-FAIL %s'%list(base-got)[:3])
P
)"
  (cd /repo && bash $d/demo.sh > /tmp/seed_$id.pa 2>&1) && s="$s DEMO-PATCHED-PASSES" || s="$s demo-patched=fails"
  fi
  (cd /verif && ./check.sh $prop > /tmp/seed_$id.chk 2>&1); c=$?
  git -C /repo checkout -q -- .
  if [ $c = 1 ] && grep -q "^VIOLATION property=$prop " /tmp/seed_$id.chk; then k=CAUGHT; else k="MISSED($c)"; fi
  echo "$id $prop $k$s"
done
