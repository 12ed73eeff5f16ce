#!/bin/bash
# Warms the build cache for the checks (they rebuild from /repo's tree anyway).
set -u
DIR=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
OUT=$(mktemp -d /tmp/pbtsetup.XXXXXX) || exit 1
trap 'rm -rf "$OUT"' EXIT
cd "$DIR/harness" || exit 1
go build -tags timetzdata -o "$OUT/pbt" . && go build -race -tags timetzdata -o "$OUT/pbtrace" .
