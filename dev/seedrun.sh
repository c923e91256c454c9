#!/bin/bash
# development aid: confirm one planted bug in a private copy of /repo
#   dev/seedrun.sh <id> [notest] [nocheck]
# copy at /tmp/seedrepo, shown as /repo in a private mount namespace
id=$1; shift
S=/verif/seeded/$id
mkdir -p /tmp/seedrepo
rsync -a --exclude _build /repo/ /tmp/seedrepo/ 2>/dev/null || cp -a /repo/. /tmp/seedrepo/
exec 9>/tmp/seedrun.lock; flock 9
unshare -m bash -s "$id" "$@" <<'X'
id=$1; shift; S=/verif/seeded/$id
mount --bind /tmp/seedrepo /repo
cd /repo; git checkout -q -- . 
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash /opt/vp/build.sh </dev/null >/tmp/seedbuild.log 2>&1 || echo "BUILD0 FAILED"
D=$(mktemp -d); cp $S/* $D/; rm -f $D/*.diff $D/meta.json
(timeout 300 bash $D/demo.sh </dev/null >/tmp/seeddemo0.log 2>&1); echo "demo unchanged: $? (want 0)"
git apply $S/patch.diff || { echo "APPLY FAILED"; exit 1; }
bash /opt/vp/build.sh </dev/null >/tmp/seedbuild.log 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/seedbuild.log; }
(timeout 300 bash $D/demo.sh </dev/null >/tmp/seeddemo1.log 2>&1); echo "demo patched: $? (want non-0)"; tail -3 /tmp/seeddemo1.log
if [[ " $* " != *" notest "* ]]; then
  bash /opt/vp/test.sh /tmp/seedout.json </dev/null >/tmp/seedtest.log 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/seedout.json'))
bad=[t for t in b if t not in o['passed']]
print("stable tests failing:",bad)
P
fi
if [[ " $* " != *" nocheck "* ]]; then
  cd /verif; ./run.sh $prop quick </dev/null > /tmp/seedcheck-$id.log 2>&1; echo "check exit $? (want 1)"; grep -E "VIOLATION|note:" /tmp/seedcheck-$id.log
fi
cd /repo; git checkout -q -- .; bash /opt/vp/build.sh </dev/null >/tmp/seedbuild.log 2>&1
rm -rf $D
X
