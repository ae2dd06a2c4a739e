#!/bin/bash
# usage: mut.sh FILE(relative to /repo) 'sed-expr' ID [check args]: run a check against a mutated scratch copy
set -e
D=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/. "$D"
sed -i "$2" "$D/$1"
(cd "$D" && git diff --stat -- "$1" | tail -1; git diff -U0 -- "$1" | grep '^[-+]' | grep -v '^[-+][-+]')
cd /verif
PYVC_REPO="$D" ./check "${@:3}" 2>&1 | cut -c1-420 || true
rm -rf "$D"
