#!/bin/bash
# seedtest.sh <id> [check ids...]: confirms a planted bug and shows which checks catch it
cd /verif; id=$1; shift; s=seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
checks=${*:-$prop}
export DEMO_TARGET=/tmp/kit/t
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
(cd /repo; bash /verif/$s/demo.sh) > /tmp/demo.out 2>&1; c=$?
git -C /repo apply --check $PWD/$s/patch.diff || { echo "$id: patch does not apply"; exit 1; }
git -C /repo apply $PWD/$s/patch.diff
bash /opt/vp/build.sh > /tmp/b.out 2>&1; b=$?
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.out 2>&1; t=$?
[ $b = 0 ] || tail -20 /tmp/b.out
(cd /repo; bash /verif/$s/demo.sh) > /tmp/demo2.out 2>&1; d=$?
r=""
for k in $checks; do ./check.sh $k quick > /tmp/c.out 2>&1; e=$?; v=$(grep -c "^VIOLATION property=$k " /tmp/c.out); [ $e = 1 ] && [ $v -ge 1 ] && r="$r $k" || { [ $e = 0 ] && r="$r -$k" || r="$r ?$k($e)"; }; done
git -C /repo checkout -- .
echo "$id prop=$prop demo-clean=$c build=$b tests=$t demo-bug=$d checks:$r | $(tail -1 /tmp/demo2.out | cut -c1-150)"
