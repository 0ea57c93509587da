#!/bin/bash
# try_bug.sh ID [CHECK...]: demo on the clean tree, then with the patch: build, demo, the checks (quick); undoes the patch
B=/verif/seeded/$1; shift
P=$(/usr/bin/python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
cd /repo || exit 9
git diff --quiet || { echo "/repo is dirty"; exit 9; }
bash /opt/vp/build.sh >/tmp/try_build.log 2>&1 || { echo "clean build failed"; exit 9; }
D=$(mktemp -d /tmp/demo.XXXXXX); cp $B/* $D/; rm -f $D/*.diff $D/meta.json
timeout 300 bash $D/demo.sh >/tmp/try_clean.log 2>&1; echo "demo clean: $? (want 0)"
git apply $B/patch.diff || { echo "patch does not apply"; exit 9; }
if bash /opt/vp/build.sh >/tmp/try_build.log 2>&1; then
  timeout 300 bash $D/demo.sh >/tmp/try_bug.log 2>&1; echo "demo bug: $? (want nonzero)"; tail -2 /tmp/try_bug.log
  for c in ${@:-$P}; do (cd /verif; VERIF_SEED=1 timeout 900 python3 check.py $c --tier quick >/tmp/try_check.log 2>&1; echo "check $c: $? (want 1)"; grep VIOLATION /tmp/try_check.log; head -1 /tmp/try_check.log | cut -c1-300); done
  [ -n "$TESTS" ] && { bash /opt/vp/test.sh /tmp/try_out.json > /tmp/try_test.log 2>&1; /usr/bin/python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/try_out.json'))['passed'])
print('stable tests failing:', sorted(b-o)[:10])
P
}
else echo "BUILD FAILED"; tail -5 /tmp/try_build.log; fi
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/try_build.log 2>&1
rm -rf "$D"
