#!/bin/bash
# usage: stage1.sh K W MUTANTS.jsonl OUT  - which of every W-th mutant build and pass the existing tests (in a private copy of /repo)
K=$1 W=$2
D=/tmp/mw/$K; mkdir -p $D; [ -d $D/repo ] || cp -a /repo $D/repo
exec unshare -Urm bash -c "mount --bind $D/repo /repo && exec python3 /verif/tools/sweep/stage1.py $K $W $3 $4"
