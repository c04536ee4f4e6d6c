#!/bin/bash
# trybug.sh DIR PID [PID..]: DIR has patch.diff (+ demo.sh); runs build, stable tests, demo and checks against
# the patched tree in a private mount namespace over copies of /repo and /verif (removed afterwards).
# env: SKIP_TESTS=1, NO_DEMO=1
D=$(realpath "$1"); shift
W=$(mktemp -d /tmp/wt.XXXXXX)
cp -a /repo $W/repo
mkdir $W/verif && cp -a /verif/. $W/verif/ && rm -rf "$W/verif/seeded"
cp -a "$D" $W/seed
unshare -m bash -c '
W=$1; shift
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo; git checkout -q -- . ; git clean -fdq
N=$(basename '"$D"')
if [ -z "$NO_DEMO" ]; then (cd /repo && timeout 300 bash $W/seed/demo.sh >$W/demo0.log 2>&1); echo "$N demo-unchanged rc=$?"; fi
git apply $W/seed/patch.diff || { echo "$N PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo "$N BUILD FAILED"; tail -30 $W/build.log; exit 1; }
if [ -z "$SKIP_TESTS" ]; then bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1
python3 - $W/out.json <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open(sys.argv[1]))
bp=set(b.get("passed") or b.get("stable") or b.get("tests") or []); op=set(o.get("passed",[]))
print("'"$(basename "$D")"' stable tests lost:", sorted(bp-op)[:8], len(bp))
P
fi
if [ -z "$NO_DEMO" ]; then (cd /repo && timeout 300 bash $W/seed/demo.sh >$W/demo1.log 2>&1); echo "$N demo-patched rc=$? : $(tail -1 $W/demo1.log | cut -c1-200)"; fi
for p in "$@"; do (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p >$W/check.log 2>&1); echo "$N check $p rc=$?"; grep -v "^KNOWN" $W/check.log | tail -8 | cut -c1-260 | sed "s/^/   /"; done
' x $W "$@"
rm -rf "$W"
