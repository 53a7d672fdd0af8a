#!/bin/bash
# seedtest.sh ID: builds, stable tests, demo with and without the patch, then this property's check against it
set -e
I=$1; S=/verif/seeded/$I; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=/tmp/seedwt.$I; rm -rf /tmp/seedwt.$I
cp -a /repo $W
git -C $W checkout -q -- .
cd $W
( cp -r $S /tmp/seeddemo.$I; rm -f /tmp/seeddemo.$I/patch.diff /tmp/seeddemo.$I/meta.json )
set +e
[ "$2" = nodemo ] || { bash /tmp/seeddemo.$I/demo.sh > /tmp/seeddemo.$I.log 2>&1; echo "$I demo clean: $? (want 0)"; tail -3 /tmp/seeddemo.$I.log; }
git apply $S/patch.diff || exit 1
[ "$2" = nodemo ] || { bash /tmp/seeddemo.$I/demo.sh > /tmp/seeddemo.$I.log 2>&1; echo "$I demo patched: $? (want non-zero)"; tail -3 /tmp/seeddemo.$I.log; }
if [ "$2" != nocheck ]; then
cd /verif; VERIF_CACHE=/tmp/seedcache.$I VERIF_REPO=$W VERIF_SEED=1 timeout 900 python3 check.py $P quick > /tmp/seedcheck.$I.log 2>&1; echo "$I check $P: $? (want 1)"; tail -4 /tmp/seedcheck.$I.log
fi
rm -rf $W /tmp/seeddemo.$I /tmp/seedcache.$I
