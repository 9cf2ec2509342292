#!/bin/bash
# Development aid: try planted bugs in private copies (mount namespace), away from /repo and /verif.
#   tools/try_bug.sh SANDBOX [-n] [-d] ID [CHECK...]    -n: skip build and stable tests   -d: skip demo
# SANDBOX holds repo/ and vp/ (copies of /repo and /opt/vp); verif/ is refreshed from /verif.
SB=$1; shift
NOTEST=; NODEMO=
[ "$1" = -n ] && { NOTEST=1; shift; }
[ "$1" = -d ] && { NODEMO=1; shift; }
export SB NOTEST NODEMO
mkdir -p $SB/verif
rsync -a --delete --exclude /build --exclude /work --exclude .git /verif/ $SB/verif/ 2>/dev/null || (cd /verif && tar cf - --exclude=./build --exclude=./work --exclude=./.git . | (cd $SB/verif && tar xf -))
[ -d $SB/verif/build ] || cp -a /verif/build $SB/verif/build
exec unshare -m bash -c '
mount --bind $SB/repo /repo && mount --bind $SB/vp /opt/vp && mount --bind $SB/verif /verif || exit 9
ID=$1; shift
cd /repo && git checkout -q -- . && git apply /verif/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; exit 9; }
if [ -z "$NOTEST" ]; then
  bash /opt/vp/build.sh > $SB/build.log 2>&1 && B=ok || B=FAIL
  bash /opt/vp/test.sh $SB/res.json > $SB/test.log 2>&1
  T=$(python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("$SB/res.json"))
want=b["stable"]
got=set(r.get("passed") or r.get("pass") or [])
want=set(want if isinstance(want,list) else want.keys())
m=sorted(want-got)
print("ok" if not m else "FAILS %d: %s" % (len(m), m[:4]))
P
)
  echo "$ID build=$B tests=$T"
fi
if [ -z "$NODEMO" ]; then
  cp -r /verif/seeded/$ID $SB/demo-$ID; bash $SB/demo-$ID/demo.sh > $SB/demo.log 2>&1; echo "$ID demo with patch rc=$? $(tail -1 $SB/demo.log | cut -c1-200)"
  git checkout -q -- .; [ -z "$NOTEST" ] && bash /opt/vp/build.sh > $SB/build0.log 2>&1; bash $SB/demo-$ID/demo.sh > $SB/demo0.log 2>&1; echo "$ID demo without patch rc=$? $(tail -1 $SB/demo0.log | cut -c1-200)"
  git apply /verif/seeded/$ID/patch.diff; rm -rf $SB/demo-$ID
fi
for c in "$@"; do
  (cd /verif && VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 tools/check.py $c > $SB/check-$ID-$c.log 2>&1; echo "$ID check $c rc=$? $(grep -m1 -A1 VIOLATION $SB/check-$ID-$c.log | tr "\n" " " | cut -c1-260) $(grep -m1 "CHECK ERROR" $SB/check-$ID-$c.log | cut -c1-200)")
done
git checkout -q -- .
' _ "$@"
