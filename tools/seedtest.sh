#!/bin/bash
# Usage: seedtest.sh <id> [checks...]   (not a check: confirms one planted bug)
# copy of /repo with the patch, bound over /repo in a private mount namespace
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/seedwt.XXXXXX)
cp -a /repo/. "$W/"
git -C "$W" apply "$V/seeded/$ID/patch.diff" || { echo "$ID: patch does not apply"; rm -rf "$W"; exit 1; }
PROP=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
D=$(mktemp -d /tmp/seeddemo.XXXXXX); cp -a "$V/seeded/$ID/." "$D/"; rm -f "$D"/*.diff "$D"/meta.json
R="$ID ($PROP):"
(cd /repo && timeout 300 bash "$D/demo.sh" >$D/clean.log 2>&1) && R="$R demo-clean-ok" || R="$R DEMO-FAILS-CLEAN"
unshare -Urm sh -c "mount --bind $W /repo && cd /repo && timeout 300 bash $D/demo.sh" >$D/bug.log 2>&1 && R="$R DEMO-PASSES-WITH-BUG" || R="$R demo-bug-ok"
if [ -z "$NOTESTS" ]; then
unshare -Urm sh -c "mount --bind $W /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh $D/o.json >$D/test.log 2>&1" || R="$R BUILD/TEST-ERR"
R="$R $(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
try:
    o=json.load(open('$D/o.json')); s=json.dumps(o)
    p=o.get('passed', o)
    bad=[t for t in b if t not in p]
    print('tests-ok' if not bad else 'TESTS-FAIL %d %s'%(len(bad),bad[:2]))
except Exception as e: print('TESTS?',e)
P
)"
fi
for C in ${@:-$PROP}; do
  E=$(mktemp -d /tmp/seedver.XXXXXX); cp -a "$V/checks" "$V/vlib" "$V/vendor" "$V/check.sh" "$E/"; [ -f "$V/known_findings.txt" ] && cp "$V/known_findings.txt" "$E/"
  T0=$(date +%s)
  unshare -Urm sh -c "mount --bind $W /repo && VERIF_SEED=${SEED:-1} VERIF_TIER=quick $E/check.sh $C quick" >$D/check.log 2>&1; rc=$?
  R="$R $C:rc=$rc($(( $(date +%s)-T0 ))s)"
  [ $rc = 1 ] && R="$R [$(head -1 $D/check.log | cut -c1-160)]" || R="$R [$(tail -1 $D/check.log | cut -c1-200)]"
  rm -rf "$E"
done
echo "$R"
tail -2 $D/bug.log | cut -c1-200
rm -rf "$W" "$D"
