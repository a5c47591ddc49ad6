#!/bin/bash
# usage: ns.sh K CMD...  - runs CMD where /repo and /verif are private copies (/tmp/ns/K, brought up to date first, KEEP=1: not)
K=$1; shift; D=/tmp/ns/$K
mkdir -p $D/repo $D/verif
[ -n "$KEEP" ] || { rsync -a --delete /repo/ $D/repo/; rsync -a --delete --exclude target /verif/ $D/verif/; }
[ -d $D/verif/target ] || cp -a /verif/target $D/verif/target
export D
exec unshare -Urm bash -c 'mount --bind $D/repo /repo && mount --bind $D/verif /verif && cd /verif && exec "$@"' x "$@"
