#!/bin/bash
# tools/seedrun.sh ID...: runs the check of each planted bug's property against the bug, through an overlay
# (CHECKS="C01 C02" runs these checks instead)
w=$(mktemp -d /tmp/seedrun.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
for id in "$@"; do
	p=${CHECKS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
	rm -rf "$w/r"; mkdir "$w/r"
	git -C /repo archive HEAD | tar -x -C "$w/r"
	(cd "$w/r" && git init -q . && git apply /verif/seeded/$id/patch.diff) || { echo "$id: does not apply"; continue; }
	python3 - "$w/r" /verif/seeded/$id/patch.diff > "$w/overlay.json" <<'EOF'
import json,re,sys
fs=re.findall(r'^\+\+\+ b/(.*)$',open(sys.argv[2],encoding='utf-8').read(),re.M)
print(json.dumps({"Replace":{"/repo/"+f:sys.argv[1]+"/"+f for f in fs}}))
EOF
	for c in $p; do
		s=$(date +%s)
		out=$(VERIF_OVERLAY="$w/overlay.json" python3 /verif/check.py $c 2>&1); rc=$?
		echo "$id $c rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -c "^VIOLATION property=$c") $(echo "$out" | grep -v '^case:' | tail -1 | cut -c1-160)"
	done
done
