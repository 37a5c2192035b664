#!/bin/bash
# tools/mutant.sh -R COMMIT|PATCH CHECK...   runs checks against /repo with a fix undone or a patch applied, then restores /repo
rev=""; [ "$1" = -R ] && { rev=-R; shift; }
src=$1; shift
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is dirty"; exit 9; }
if [ -f "$src" ]; then git -C /repo apply $rev "$src" || exit 9
else git -C /repo show "$src" | git -C /repo apply $rev --3way - >/dev/null 2>&1 || { echo "does not apply"; git -C /repo checkout -q HEAD -- .; exit 9; }; git -C /repo reset -q; fi
for c in "$@"; do echo "== $c"; python3 /verif/check.py $c 2>&1 | grep -v '^case:' | cut -c1-400 | tail -4; done
git -C /repo checkout -q -- .
