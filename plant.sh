#!/bin/bash
# plant.sh ID...: for each planted change seeded/ID, in a scratch copy of /repo: does the patch apply, do the stable
# tests still pass, does demo.sh pass without and fail with it, and does the property's check report it.
cd /verif
sha() { md5sum < "$1" | cut -c1-8; }
for id in "$@"; do
  S=/verif/seeded/$id; C=/tmp/plant.$id; T=/tmp/plant.$id.vp
  rm -rf "$C" "$T"; cp -a /repo "$C"; cp -a /opt/vp "$T"
  sed -i "s#/repo#$C#g; s#/opt/vp#$T#g" $T/test.sh $T/env.sh $T/build.sh
  sed -i "s#/opt/vp/reports#$T/reports#g" $T/results.py 2>/dev/null
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  r="$id($prop):"
  mkdir -p /tmp/plantdemo.$id; cp -r $S/. /tmp/plantdemo.$id/; rm -f /tmp/plantdemo.$id/*.diff /tmp/plantdemo.$id/meta.json
  if [ -z "$SKIPDEMO" ]; then
  ( cd $C && . $T/env.sh && timeout 300 bash /tmp/plantdemo.$id/demo.sh ) >/tmp/plant.$id.d0 2>&1; r="$r demo0=$?"
  fi
  git -C $C apply $S/patch.diff || { echo "$r patch does not apply"; continue; }
  bash $T/build.sh >/tmp/plant.$id.b 2>&1 || r="$r BUILD-FAILS"
  if [ -z "$SKIPDEMO" ]; then
  ( cd $C && . $T/env.sh && timeout 300 bash /tmp/plantdemo.$id/demo.sh ) >/tmp/plant.$id.d1 2>&1; r="$r demo1=$?"
  fi
  if [ -z "$SKIPTESTS" ]; then
    bash $T/test.sh /tmp/plant.$id.json >/tmp/plant.$id.t 2>&1
    r="$r tests_broken=$(python3 - /tmp/plant.$id.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
m=[x for x in b['stable'] if x not in set(t['passed'])]
print(len(m), m[:3])
P
)"
  fi
  VERIF_REPO=$C bash run.sh $prop quick >/tmp/plant.$id.c 2>&1; r="$r check=$? $(grep -c VIOLATION /tmp/plant.$id.c)"
  echo "$r"
  rm -rf "$C" "$T" /tmp/plantdemo.$id
done
