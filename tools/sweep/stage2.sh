#!/bin/bash
# usage: stage2.sh K W SURVIVORS.jsonl OUT  - which check (if any) reports each W-th mutant (private copies of /repo and /verif)
K=$1 W=$2
D=/tmp/mw/v$K; mkdir -p $D; [ -d $D/repo ] || cp -a /repo $D/repo; [ -d $D/verif ] || cp -a /verif $D/verif
exec unshare -Urm bash -c "mount --bind $D/repo /repo && mount --bind $D/verif /verif && exec python3 /verif/tools/sweep/stage2.py $K $W $3 $4"
