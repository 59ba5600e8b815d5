#!/bin/bash
# seedcheck.sh <id>...: confirms planted bugs in a scratch copy: builds, tests pass, demo 0 / nonzero.
w=/tmp/seedw; vp=/tmp/seedvp
mkdir -p $vp
if [ ! -d $w ]; then cp -a /repo $w; fi
for f in build.sh test.sh common.sh results.py; do sed "s#/repo#$w#g; s#/opt/vp/logs#$vp/logs#g; s#/opt/vp/common.sh#$vp/common.sh#g; s#/opt/vp/results.py#$vp/results.py#g" /opt/vp/$f >$vp/$f; done
git -C $w checkout -q -- . ; git -C $w pull -q /repo HEAD 2>/dev/null
one() {
  id=$1; d=/verif/seeded/$id
  git -C $w checkout -q -- .
  if ! git -C $w apply $d/patch.diff; then echo "$id: does not apply"; return; fi
  if ! bash $vp/build.sh >$vp/build.log 2>&1; then echo "$id: does not build"; grep -m5 -A8 '^error' $vp/build.log; return; fi
  bash $vp/test.sh $vp/out.json >$vp/test.log 2>&1
  python3 - $vp/out.json <<'P' || { echo "$id: TESTS FAIL"; return; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
base=b.get('stable') or b.get('passed') or b.get('tests')
miss=[t for t in base if t not in set(o['passed'])]
for t in miss[:6]: print('   fails:',t)
sys.exit(bool(miss))
P
  (cd $w && timeout 300 bash $d/demo.sh) >$vp/demo.log 2>&1; a=$?
  git -C $w checkout -q -- .
  (cd $w && timeout 300 bash $d/demo.sh) >$vp/demo0.log 2>&1; b=$?
  if [ $a != 0 ] && [ $b = 0 ]; then echo "$id: ok (demo $b / $a): $(grep -E 'error|panicked|assert' $vp/demo.log | head -1 | cut -c1-150)"; else echo "$id: BAD demo: unchanged $b, patched $a"; tail -5 $vp/demo0.log; fi
}
for id in "$@"; do one $id; done
