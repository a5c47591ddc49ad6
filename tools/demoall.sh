#!/bin/bash
# every demo on the unchanged tree
cd /repo; for d in /verif/seeded/*/; do ( T=$(mktemp -d /tmp/dm.XXXXXX); cp -r $d/. $T; bash $T/demo.sh >/tmp/dm.log 2>&1; echo "$(basename $d) $?"; rm -rf /tmp/dm.${T##*.} ); done
