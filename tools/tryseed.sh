#!/bin/bash
# usage: tryseed.sh ID [CHECK...]  - applies seeded/ID, builds, tests, demo, runs the checks, undoes it
ID=$1; shift
D=/verif/seeded/$ID
[ -f $D/patch.diff ] || { echo no patch; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
git apply $D/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
T=$(mktemp -d /tmp/try.XXXXXX); cp -r $D/. $T/; rm -f $T/*.diff $T/meta.json
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >$T/build.log 2>&1 || { echo "$ID BUILD FAILS"; grep -A6 ^error $T/build.log; exit 1; }
bash /opt/vp/test.sh $T/out.json >$T/test.log 2>&1; tail -3 $T/test.log | grep -q "222 passed" && echo "$ID tests pass" || { echo "$ID TESTS FAIL"; grep FAIL $T/test.log | head; }
bash $T/demo.sh >$T/demo.log 2>&1; echo "$ID demo rc $? (want nonzero)"; tail -3 $T/demo.log
fi
for c in ${@:-$P}; do bash /verif/check.sh $c > $T/$c.log 2>&1; echo "$ID check $c rc $?"; grep -A1 VIOLATION $T/$c.log | cut -c1-300 | head -4; done
rm -rf /tmp/try.${T##*.}
