#!/bin/bash
# plant.sh ID P..  — confirm a planted bug in a scratch copy (private mount of /tmp/sc/repo over /repo).
# The edit is either already made in /tmp/sc/repo or taken from seeded/ID/patch.diff.
ID=$1; shift
V=/verif; S=/tmp/sc/repo; D=$V/seeded/$ID
[ -d $S ] || { mkdir -p /tmp/sc; cp -a /repo $S; }
if [ -n "$(git -C $S status --porcelain)" ]; then git -C $S diff > $D/patch.diff; else
  git -C $S checkout -q --detach $(git -C /repo rev-parse HEAD) 2>/dev/null || { git -C $S fetch -q /repo HEAD && git -C $S checkout -q --detach FETCH_HEAD; }
  git -C $S apply $D/patch.diff || exit 1; fi
export ID V S D P="$*"
unshare -m bash -c '
mount --bind $S /repo
export VERIF_TARGET=/tmp/sc/vt
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh > /tmp/sc/build.log 2>&1 && echo "build ok" || { echo "BUILD FAILED"; tail -20 /tmp/sc/build.log; }
bash /opt/vp/test.sh /tmp/sc/test.json > /tmp/sc/test.log 2>&1
python3 - <<X
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("/tmp/sc/test.json"))
st=b.get("stable") or b.get("stable_passing") or b.get("passed") or b
ok=set(r.get("passed",[]))
print("tests missing:", [t for t in st if t not in ok][:5], len(ok))
X
fi
if [ -z "$NODEMO" ]; then
bash $D/demo.sh > /tmp/sc/demo1.log 2>&1; echo "demo with patch: $? (want nonzero)"; tail -3 /tmp/sc/demo1.log
fi
for p in $P; do python3 $V/run.py $p 2>&1 | tail -4 | cut -c1-600; done
git -C /repo checkout -q -- .
if [ -z "$NODEMO" ]; then
bash $D/demo.sh > /tmp/sc/demo0.log 2>&1; echo "demo without: $? (want 0)"; tail -3 /tmp/sc/demo0.log
fi
'
