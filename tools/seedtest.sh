#!/bin/bash
# seedtest.sh ID...: check that each planted change builds, passes the stable tests, and that its demo tells
# the trees apart; then run the property's quick check on it. Works in a copy of /repo.
BUG=${BUG:-/tmp/bugt}
V=$(cd "$(dirname "$0")/.." && pwd)
[ -d $BUG ] || cp -a /repo $BUG
for id in "$@"; do
  d=$V/seeded/$id; out=/tmp/seedtest_$id; rm -rf $out; mkdir -p $out
  git -C $BUG checkout -q -- . ; git -C $BUG fetch -q /repo HEAD && git -C $BUG reset -q --hard FETCH_HEAD
  git -C $BUG apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; continue; }
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  r=""
  if [ -z "$SKIPTESTS" ]; then
  unshare -Urm bash -c "mount --bind $BUG /repo && bash /opt/vp/build.sh > $out/build.log 2>&1 && bash /opt/vp/test.sh $out/t.json > $out/test.log 2>&1"
  r=$(python3 - <<P
import json
try:
    p=set(json.load(open("$out/t.json"))["passed"]); b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
    m=[x for x in b if x not in p]; print("tests ok" if not m else "TESTS FAIL %s"%m)
except Exception as e: print("BUILD FAIL")
P
)
  fi
  cp -r $d $out/demo; rm -f $out/demo/*.diff $out/demo/meta.json
  (cd $BUG && timeout 300 bash $out/demo/demo.sh > $out/demo_bug.log 2>&1); a=$?
  (cd /repo && timeout 300 bash $out/demo/demo.sh > $out/demo_ok.log 2>&1); b=$?
  (cd $V && VERIF_REPO=$BUG VERIF_BUILD=/tmp/bugbuild VERIF_SEED=1 timeout 900 python3-vt check.py $prop > $out/check.log 2>&1); c=$?
  echo "$id [$prop]: $r; demo with bug rc=$a (want !=0), without rc=$b (want 0); check rc=$c $(grep -c ^VIOLATION $out/check.log)"
  git -C $BUG checkout -q -- .
done
