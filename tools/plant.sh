#!/bin/bash
# plant.sh ID [notest]: verify /verif/seeded/ID in a scratch copy of /repo:
# the patch applies, the stable tests pass, the demonstration is 0 before and nonzero after.
ID=$1; S=/verif/seeded/$ID
W=$(mktemp -d /tmp/plant.XXXXXX); chmod 711 $W
cp -a /repo $W/repo; git -C $W/repo checkout -q -- .
cp -r $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
sed "s#/repo#$W/repo#g; s#-o junit_family#-n0 -o junit_family#" /opt/vp/test.sh | sed 's# -n0##' > $W/test.sh
export PYTHONPATH=$W/repo PYTHONDONTWRITEBYTECODE=1
cd $W/repo
timeout 300 bash $W/demo/demo.sh >$W/d0.log 2>&1; a=$?
git apply $S/patch.diff || { echo "$ID: PATCH DOES NOT APPLY"; rm -rf $W; exit 1; }
timeout 300 bash $W/demo/demo.sh >$W/d1.log 2>&1; b=$?
if [ "$2" != notest ]; then
  bash $W/test.sh $W/out.json >$W/t.log 2>&1
  t=$(python3 - $W/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(x[k])
    raise SystemExit(str(list(x)))
m=names(b)-names(o)
print("tests-ok" if not m else "TESTS FAIL "+" ".join(sorted(m))[:300])
P
)
else t=notest; fi
echo "$ID: demo before=$a after=$b $t"
if [ $a != 0 ]; then tail -5 $W/d0.log; fi
if [ $b = 0 ]; then tail -5 $W/d1.log; fi
[ -n "$SHOW" ] && tail -3 $W/d1.log
rm -rf $W
