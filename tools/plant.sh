#!/bin/bash
# plant.sh NAME [check|quick]: confirms /verif/seeded/NAME in a scratch copy bind-mounted over /repo inside a private
# mount namespace: builds, runs the tests, runs the demo on the clean and the changed tree, optionally the check.
# If /tmp/seedsrc_NAME (a changed copy of /repo/stingraykit) exists, patch.diff is first regenerated from it.
N=$1; MODE=$2
S=/verif/seeded/$N; W=/tmp/seedwt_$N
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; cp -a /repo "$W"
unshare -Urm bash -c "
mount --bind $W /repo || exit 3
cd /repo
if [ \"$MODE\" != check ]; then
	( bash $S/demo.sh > $W/demo_clean.log 2>&1 ); echo demo clean rc=\$?
fi
git apply $S/patch.diff || { echo PATCH-FAILED; exit 3; }
if [ \"$MODE\" != check ]; then
	bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
	python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json')); p=set(o['passed'])
print('tests missing', [x for x in b['stable'] if x not in p][:5], len(p))
Q
	( bash $S/demo.sh > $W/demo_bad.log 2>&1 ); echo demo patched rc=\$?; tail -3 $W/demo_bad.log
fi
if [ \"$MODE\" != confirm ]; then
	cp -a /verif $W.v; rm -rf $W.v/seeded $W.v/.git; mount --bind $W.v /verif; cd /verif; timeout 900 ./check.py $P > $W/check.log 2>&1; echo check rc=\$?; grep VIOLATION $W/check.log | head -3
fi
"
cp $W/*.log /tmp/ 2>/dev/null
rm -rf "$W" "$W.v"
