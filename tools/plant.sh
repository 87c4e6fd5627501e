#!/bin/bash
# plant.sh <id> [test|demo|check|all] [seconds]: tries one planted change (/verif/seeded/<id>) in a copy of /repo that is
# mounted over /repo in a private mount namespace, so nothing outside ever sees it
ID=$1; WHAT=${2:-all}; SEC=${3:-}
D=/verif/seeded/$ID
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
W=/tmp/pl/$ID.$$
mkdir -p $W && cp -a /repo $W/repo && cp -a /verif $W/verif && rm -rf $W/verif/seeded
trap "rm -rf $W" EXIT
git -C $W/repo apply $D/patch.diff || { echo "$ID: DOES NOT APPLY"; exit 1; }
cp -a $D $W/demo; rm -f $W/demo/patch.diff $W/demo/meta.json
res="$ID [$PROP]"
if [ $WHAT = demo -o $WHAT = all ]; then
  unshare -Urm sh -c "mount --bind $W/repo /repo && cd /repo && timeout 300 bash $W/demo/demo.sh" >$W/d1 2>&1; b=$?
  (cd /repo && timeout 300 bash $W/demo/demo.sh) >$W/d0 2>&1; a=$?
  res="$res demo(clean)=$a demo(bug)=$b"
  if [ $a != 0 ]; then tail -5 $W/d0; fi
  if [ $b = 0 ]; then tail -5 $W/d1; else tail -2 $W/d1; fi
fi
if [ $WHAT = test -o $WHAT = all ]; then
  unshare -Urm sh -c "mount --bind $W/repo /repo && bash /opt/vp/build.sh >$W/build.log 2>&1; echo \$? >$W/build.rc; bash /opt/vp/test.sh $W/out.json >/dev/null 2>&1"
  t=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('$W/out.json'))['passed'])
print('build=$(cat $W/build.rc) tests-lost=%d %s'%(len(b-o), sorted(b-o)[:2]))
P
)
  res="$res $t"
fi
if [ $WHAT = check -o $WHAT = all ]; then
  P=${PROPS:-$PROP}
  for p in $P; do
    s=$(date +%s)
    unshare -Urm sh -c "mount --bind $W/repo /repo && mount --bind $W/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $p ${SEC:+--time $SEC}" >$W/c 2>&1; c=$?
    res="$res | $p exit=$c $(( $(date +%s)-s ))s $(grep -m1 VIOLATION $W/c | cut -c1-60)"
    grep -A3 -m1 VIOLATION $W/c | head -${LINES_SHOWN:-4} | cut -c1-300
  done
fi
echo "$res"
