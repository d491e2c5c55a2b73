#!/bin/bash
# tools/trybug.sh BUGDIR [TIER:]PROPERTY... : confirms a planted bug in a private copy of /repo and runs checks against it
# (in a user and mount namespace of its own, so that /repo itself is not touched)
D=$(realpath "$1"); shift
W=$(mktemp -d /tmp/bug.XXXXXX)
cp -a /repo "$W/repo"; mkdir "$W/evidence" "$W/replays"
export D W PROPS="$*"
unshare -Urm bash -c '
mount --bind "$W/repo" /repo; mount --bind "$W/evidence" /verif/evidence; mount --bind "$W/replays" /verif/replays
cd /repo; N=$(basename "$D")
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "$N: does not build at all"; exit 1; }
timeout 300 bash "$D/demo.sh" >"$W/d0" 2>&1 || { echo "$N: DEMO FAILS ON CLEAN TREE"; tail -5 "$W/d0"; }
git apply "$D/patch.diff" || { echo "$N: DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >"$W/b" 2>&1 || { echo "$N: DOES NOT BUILD"; tail -5 "$W/b"; }
bash /opt/vp/test.sh "$W/o.json" >"$W/t" 2>&1
/opt/venv/bin/python -c "
import json,os
b=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]; o=json.load(open(os.environ[\"W\"]+\"/o.json\"))[\"passed\"]
m=sorted(set(b)-set(o))
print(os.path.basename(os.environ[\"D\"])+\": TESTS FAIL\", m) if m else None"
cd /repo; timeout 300 bash "$D/demo.sh" >"$W/d1" 2>&1 && { echo "$N: DEMO PASSES WITH PATCH"; }
for p in $PROPS; do
  t=quick; case $p in *:*) t=${p%%:*}; p=${p##*:};; esac
  cd /verif; r=$(VERIF_SEED=${VERIF_SEED:-1} /opt/venv/bin/python -B harness/run.py $p $t 2>&1); c=$?
  case $c in 1) echo "$N: $p caught  $(echo "$r" | grep -m1 "case ")";; 0) echo "$N: $p MISSED";; *) echo "$N: $p rc $c $(echo "$r" | tail -2)";; esac
done'
rm -rf "$W"
