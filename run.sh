#!/bin/bash
# bash run.sh <property> <quick|thorough>: build the explorer from /repo's
# working tree and run the exploration that decides the property.
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tier=${2:-${VERIF_TIER:-quick}}
export HOME=${HOME:-/root} GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS= CGO_ENABLED=0 GODEBUG=
export VERIF_DIR=$here
build=$(mktemp -d /tmp/mc-build-XXXXXX) || exit 2
trap 'rm -rf "$build"' EXIT
cd "$here/mc" || exit 2
instr=
[ "$id" = C22 ] && instr=-instr
GOFLAGS= go run ./prep -out "$build" -goroot "$(go env GOROOT)" $instr || { echo "ERROR: overlay"; exit 2; }
if [ "$id" = C22 ]; then
	# with the race detector where it works
	if CGO_ENABLED=1 go build -race -overlay "$build/overlay.json" -o "$build/mc" . 2>"$build/log" && "$build/mc" >/dev/null 2>&1; then
		"$build/mc" "$id" "$tier"
		exit
	fi
fi
go build -overlay "$build/overlay.json" -o "$build/mc" . || { echo "ERROR: build"; exit 2; }
"$build/mc" "$id" "$tier"
