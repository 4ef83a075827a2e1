#!/bin/bash
# seedtry.sh ID [-n] [PROP...]: try the planted bug seeded/ID in a private mount namespace: apply, build, stable tests, demo, then the checks PROP...
# -n: skip build, tests and demo (only the checks).  /repo itself is never touched: a copy is bind-mounted over it for this process only.
set -u
ID=$1; shift
NB=0; [ "${1:-}" = -n ] && { NB=1; shift; }
D=/verif/seeded/$ID
W=$(mktemp -d /tmp/seedtry.XXXXXX)
cp -a /repo $W/repo
export W D NB
unshare -m bash -c '
mount --bind $W/repo /repo || exit 9
cd /repo
if [ $NB = 0 ]; then
	cp -r $D $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
	bash $W/demo/demo.sh >$W/demo0.log 2>&1; echo "demo unchanged: rc=$? (want 0)"; 
fi
git apply --check $D/patch.diff && git apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 8; }
if [ $NB = 0 ]; then
	bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo BUILD FAILED; grep -m5 error $W/build.log; exit 7; }
	bash /opt/vp/test.sh $W/o.json >$W/test.log 2>&1
	python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; o=json.load(open("$W/o.json"))
m=[t for t in b if t not in o["passed"]]
print("tests:", "ok" if not m else "MISSING %s" % m)
P
	cd /repo; timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1; echo "demo patched: rc=$? (want nonzero)"; tail -3 $W/demo1.log
fi
for p in "$@"; do
	python3 /verif/check.py $p 2>&1 | grep -v KNOWN | cut -c1-400 | head -5
done
' x "$@"
rm -rf "$W"
