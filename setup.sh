#!/bin/bash
# Compiles the explorer once, so that the build cache is warm.
cd "$(dirname "$0")/mc" || exit 1
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=
d=$(mktemp -d /tmp/mc-setup-XXXXXX) || exit 1
trap 'rm -rf "$d"' EXIT
go run ./prep -out "$d" -goroot "$(go env GOROOT)" && CGO_ENABLED=0 go build -overlay "$d/overlay.json" -o "$d/mc" . && "$d/mc"
