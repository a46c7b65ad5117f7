#!/bin/bash
# tools/check_seeded.sh [-j N] [id ...]: run each planted bug's quick check on a scratch copy of /repo that has it
# (development only; the registered commands use /repo).
v=$(cd "$(dirname "$0")/.." && pwd)
j=2
[ "$1" = -j ] && { j=$2; shift 2; }
one() {
	id=$1
	t=$(mktemp -d /tmp/seeded-XXXXXX) || exit 2
	trap 'rm -rf "$t"' EXIT
	git -C /repo archive HEAD | tar -x -C "$t"
	(cd "$t" && git init -q . && git apply "$v/seeded/$id/patch.diff") || { echo "$id DOES NOT APPLY"; exit; }
	p=$(python3 -c "import json;print(json.load(open('$v/seeded/$id/meta.json'))['property'])")
	if bash "$v/tools/against.sh" "$t" "$p" quick 2>/dev/null | grep -q "^VIOLATION property=$p "; then
		echo "$id $p caught"
	else
		echo "$id $p MISSED"
	fi
}
export -f one
export v
[ $# = 0 ] && set -- $(ls "$v/seeded")
printf '%s\n' "$@" | xargs -P "$j" -I{} bash -c 'one {}'
