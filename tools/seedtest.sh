#!/bin/bash
# seedtest.sh check ID...   : run the property's quick check against a scratch copy with the seeded bug applied
# seedtest.sh confirm ID... : in /repo itself: patch, build, stable tests, demo fails; undo, build, demo passes
V=$(cd "$(dirname "$0")/.." && pwd); mode=$1; shift
for id in "$@"; do
  S=$V/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  if [ $mode = check ]; then
    W=/tmp/seed/w.$id; rm -rf "$W"; mkdir -p "$W"; git -C /repo archive HEAD | tar x -C "$W"
    (cd "$W" && git init -q . 2>/dev/null; patch -s -p1 <"$S/patch.diff") || { echo "$id: patch does not apply"; continue; }
    s=$(date +%s); VERIF_REPO=$W python3 $V/run.py $P quick >/tmp/seed/$id.log 2>&1; rc=$?; e=$(date +%s)
    echo "$id $P rc=$rc $((e-s))s $(grep -m1 -E 'violation in' /tmp/seed/$id.log | head -c 200) $(grep -c VIOLATION /tmp/seed/$id.log) $(grep -m2 -E '^ERROR' /tmp/seed/$id.log | head -c 300)"
    rm -rf "$W"
  else
    git -C /repo apply --check "$S/patch.diff" || { echo "$id: does not apply"; continue; }
    git -C /repo apply "$S/patch.diff"; b=0; bash /opt/vp/build.sh >/tmp/seed/$id.build 2>&1 || b=1
    bash /opt/vp/test.sh /tmp/seed/$id.json >/tmp/seed/$id.test 2>&1
    t=$(python3 -c "
import json;s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/seed/$id.json'))['passed']);print(len(s-p),sorted(s-p)[:3])")
    (cd /repo && timeout 300 bash "$S/demo.sh" >/tmp/seed/$id.demo1 2>&1); d1=$?
    git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
    (cd /repo && timeout 300 bash "$S/demo.sh" >/tmp/seed/$id.demo0 2>&1); d0=$?
    ok=BAD; [ $b = 0 ] && [[ $t = 0* ]] && [ $d1 != 0 ] && [ $d0 = 0 ] && ok=GOOD
    echo "$id build=$b missing=$t demo(bug)=$d1 demo(clean)=$d0 $ok"
  fi
done
