#!/bin/bash
# seedtest.sh ID : validates seeded/ID in a scratch copy (builds, stable tests, demo both ways)
set -u
id=$1; V=$(cd "$(dirname "$0")/.." && pwd); S=/tmp/seedtest.$id
rm -rf "$S"; mkdir -p "$S"
git -C /repo worktree prune
git clone -q /repo "$S/repo"; cd "$S/repo"
sed "s#/repo#$S/repo#g" /opt/vp/build.sh > $S/build.sh
sed "s#/repo#$S/repo#g; s#/opt/vp/build.sh#$S/build.sh#" /opt/vp/test.sh > $S/test.sh
if [ -z "${SKIPCLEAN:-}" ]; then
bash $S/build.sh >$S/b0.log 2>&1 || { echo "$id: base build FAILED"; tail -5 $S/b0.log; }
bash $V/seeded/$id/demo.sh >$S/d0.log 2>&1; r0=$?
else r0=-; fi
git apply $V/seeded/$id/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash $S/test.sh $S/out.json >$S/b1.log 2>&1
bash $V/seeded/$id/demo.sh >$S/d1.log 2>&1; r1=$?
python3 - $S/out.json <<'P' > $S/t
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open(sys.argv[1]))
st=b.get("passed") or b.get("stable") or b.get("tests") or b
p=set(o["passed"]); miss=[x for x in st if x not in p]
print("tests ok" if not miss else "TESTS FAIL %s"%miss[:3])
P
echo "$id: demo clean=$r0 patched=$r1 $(cat $S/t) :: $(tail -1 $S/d1.log | cut -c1-120)"
if [ -n "${CHECKS:-}" ]; then for c in $CHECKS; do CGMF_REPO=$S/repo python3 $V/check.py $c | grep -v KNOWN | tail -3; done; fi
cd /; rm -rf "$S"
