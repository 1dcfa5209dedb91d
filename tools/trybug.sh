#!/bin/bash
# tools/trybug.sh ID...: confirms a planted bug in a scratch copy (/tmp/scr): patch applies, builds, stable tests pass, demo passes without and fails with it;
# then runs the check of its property on the patched copy (VERIF_REPO) and prints what it says.
S=/tmp/scr
if [ ! -d $S/_build ]; then mkdir -p $S; cp -a /repo/. $S/; for f in build test; do sed "s#/repo#$S#g; s#/opt/vp/build.sh#$S.build.sh#g" /opt/vp/$f.sh > $S.$f.sh; done; rm -rf "$S/_build"; fi
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  D=$V/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C $S fetch -q /repo HEAD && git -C $S checkout -qf FETCH_HEAD && git -C $S checkout -q -- . 
  bash $S.build.sh >/tmp/scr.log 2>&1 || { echo "$id: base build fails"; continue; }
  (cd $S && timeout 300 bash $D/demo.sh >/tmp/scr.demo0 2>&1); d0=$?
  git -C $S apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $S.test.sh /tmp/scr.json >/tmp/scr.log 2>&1; t=$(python3 - <<X
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b.get('passed',b.get('stable',b)); r=set(json.load(open('/tmp/scr.json'))['passed'])
print(len(set(b)-r))
X
)
  (cd $S && timeout 300 bash $D/demo.sh >/tmp/scr.demo1 2>&1); d1=$?
  c=-; if [ -f $V/checks/$P.py ]; then VERIF_REPO=$S VERIF_NOEV=1 timeout 900 python3 $V/checks/$P.py >/tmp/scr.chk 2>&1; c=$?; fi
  ok=BAD; [ $d0 = 0 ] && [ $d1 != 0 ] && [ "$t" = 0 ] && ok=counts
  echo "$id [$P]: $ok (demo $d0/$d1, lost tests $t) check exit $c: $(grep -v '^KNOWN\|^OK' /tmp/scr.chk 2>/dev/null| head -2 | cut -c1-220)"
  git -C $S checkout -q -- .
done
