#!/bin/bash
# try a change in a scratch clone: tools/mut.sh 'sed expr' file CHECK...   (or a patch: tools/mut.sh -p patch CHECK...)
cd /tmp/mut && git checkout -q -- . 
if [ "$1" = -p ]; then git apply "$2" || exit 3; shift 2
elif [ "$1" = -s ]; then sed -i -E "$2" "$3"; shift 3; fi
git diff --stat | tail -1
[ -z "$(git diff)" ] && echo "NO CHANGE" && exit 3
export VERIF_REPO=/tmp/mut VERIF_BUILD=/tmp/mutbuild
for c in "$@"; do timeout 900 python3 /verif/checks/$c.py 2>&1 | tail -3 | cut -c1-400; done
git checkout -q -- .
