#!/bin/bash
# tools/against.sh <tree> <property> [tier]: run a check against a scratch copy
# of the repository (development only; the registered commands use /repo).
v=$(cd "$(dirname "$0")/.." && pwd)
d=$(mktemp -d /tmp/against-XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
cp -a "$v/mc" "$v/run.sh" "$v/known_findings.txt" "$v/known" "$d/" 2>/dev/null
sed -i "s#=> /repo#=> $1#" "$d/mc/go.mod"
sed -i "s#go run ./prep #go run ./prep -repo $1 #" "$d/run.sh"
bash "$d/run.sh" "$2" "${3:-quick}"
rc=$?
[ -n "$KEEP" ] && cp -a "$d/evidence" "$KEEP"
exit $rc
