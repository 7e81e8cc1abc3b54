#!/bin/bash
# unfix.sh COMMIT|PATCH ID...   run checks with a fix reverted (or a patch applied), then restore /repo
p=$1; shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -f "$p" ]; then git apply "$p" || exit 2; else git show "$p" | git apply -R || exit 2; fi
cd /verif
for i in "$@"; do python3 tools/check.py "$i" | cut -c1-${WIDTH:-700}; done
