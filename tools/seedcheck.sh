#!/bin/bash
# tools/seedcheck.sh ID...: confirms planted bugs in a scratch worktree: builds, passes the tests, demo 0 without and nonzero with the patch
w=/tmp/seedcheck.$$
git -C /repo worktree add -q --detach "$w" HEAD || exit 9
trap 'git -C /repo worktree remove --force "$w"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOFLAGS=-mod=mod
cd "$w" || exit 9
for id in "$@"; do
	d=/verif/seeded/$id
	bash $d/demo.sh >/tmp/seed.out 2>&1; a=$?
	git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
	go build -buildvcs=false -o /dev/null ./... 2>/tmp/seed.build; b=$?
	t=$(go test -vet=off -buildvcs=false -count=1 ./... 2>&1 | grep -c '^FAIL\|^--- FAIL')
	bash $d/demo.sh >/tmp/seed.out2 2>&1; c=$?
	git checkout -q -- .
	if [ $a = 0 ] && [ $b = 0 ] && [ $t = 0 ] && [ $c != 0 ]; then echo "$id: ok ($(tail -1 /tmp/seed.out2 | cut -c1-150))"
	else echo "$id: BAD clean=$a build=$b testfail=$t patched=$c"; tail -n 3 /tmp/seed.out /tmp/seed.out2 /tmp/seed.build; fi
done
