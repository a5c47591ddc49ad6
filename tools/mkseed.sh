#!/bin/bash
# usage: mkseed.sh ID PROPERTY "needs" "what it breaks"   (the change is the uncommitted diff of /tmp/sr; demo files are in seeded/ID)
D=/verif/seeded/$1; mkdir -p $D
git -C /tmp/sr diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo empty patch; exit 1; }
cp /verif/tools/seedlib/demo.sh $D/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
git -C /tmp/sr checkout -q -- .
cd /repo && bash $D/demo.sh >/tmp/demo.log 2>&1; echo "$1 demo on the unchanged tree rc $? (want 0)"; tail -3 /tmp/demo.log
NOTEST=$NOTEST bash /verif/tools/tryseed.sh $1
