#!/bin/bash
# tools/check_fixed.sh [commit...]: undo each repaired defect on its own, in a
# scratch copy, and run the check of its property on it (development only).
v=$(cd "$(dirname "$0")/.." && pwd)
grep '^fixed:' "$v/known_findings.txt" | while read -r _ prop commit _; do
	[ $# -gt 0 ] && [[ " $* " != *" $commit "* ]] && continue
	id=${prop#property=}
	d=$(mktemp -d /tmp/fixed-XXXXXX)
	git clone -q /repo "$d/r"
	if ! git -C "$d/r" -c user.name=x -c user.email=x revert --no-edit "$commit" >/dev/null 2>&1; then
		echo "$commit $id: cannot be undone on its own"
	elif ! (cd "$d/r" && go build ./... >/dev/null 2>&1); then
		echo "$commit $id: does not build without it"
	elif bash "$v/tools/against.sh" "$d/r" "$id" </dev/null 2>/dev/null | grep -q "^VIOLATION property=$id "; then
		echo "$commit $id: reported"
	else
		echo "$commit $id: MISSED"
	fi
	rm -rf "$d"
done
