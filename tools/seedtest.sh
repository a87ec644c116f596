#!/bin/bash
# seedtest.sh [ID...]: which planted bugs the checks of their properties catch (quick tier), each in a scratch copy.
cd "$(dirname "$0")/.." || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
	t=$(mktemp -d) || exit 2
	cp -a /repo "$t/repo"
	cp -r harness "$t/harness"
	prop=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
	if git -C "$t/repo" apply "$PWD/seeded/$id/patch.diff"; then
		mkdir "$t/verif" && cp -r harness known-findings.txt properties.jsonl "$t/verif/"
		out=$(VX_REPO="$t/repo" VX_VERIF="$t/verif" ./bin/vx check -prop "$prop" -tier "${TIER:-quick}" 2>&1)
		code=$?
		echo "$id $prop exit $code $(echo "$out" | grep -c '^VIOLATION')"
		[ $code = 1 ] || echo "$out" | tail -3
	else
		echo "$id: patch does not apply"
	fi
	rm -r "$t"
done
