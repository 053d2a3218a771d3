#!/bin/bash
# seedtest.sh <seed-id> [check ids]: confirm a planted change in a scratch copy of /repo (bind-mounted in a private namespace) and run the checks on it.
id=$1; shift
S=/verif/seeded/$id; W=/tmp/sr-$id
mkdir -p $W && cp -a /repo/. $W/ || exit 2
unshare -Urm bash -c '
mount --bind '$W' /repo || exit 9
cd /repo; git config --global --add safe.directory /repo 2>/dev/null
demo() { mkdir -p /tmp/demo-'$id'; cp '$S'/* /tmp/demo-'$id'/; (cd /repo && timeout 300 bash /tmp/demo-'$id'/demo.sh); r=$?; rm -rf /tmp/demo-'$id'; return $r; }
demo >/tmp/seed-'$id'.log 2>&1; echo "demo unchanged rc=$?"
git apply '$S'/patch.diff || { echo "patch does not apply"; exit 1; }
if [ -z "'"$NOTEST"'" ]; then bash /opt/vp/test.sh /tmp/seed-'$id'.json >/tmp/seed-'$id'.blog 2>&1 || { echo BUILD/TEST FAILED; tail -5 /tmp/seed-'$id'.blog; }
python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("/tmp/seed-'$id'.json"))
m=[t for t in b["stable"] if t not in set(r["passed"])]
print("stable tests missing:", len(m), m[:5])
PY
demo >>/tmp/seed-'$id'.log 2>&1; echo "demo patched rc=$?"; fi
cd /verif; for c in '"$*"'; do VERIF_SEED=1 python3 vc/check.py $c quick 2>&1 | cut -c1-400; echo "check $c rc=${PIPESTATUS[0]}"; done
'
/bin/rm -rf "$W" 
