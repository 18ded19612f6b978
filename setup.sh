#!/bin/bash
# Checks that the toolchain can build the driver and parse the specifications; every check builds for itself.
cd "$(dirname "$0")" || exit 1
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOFLAGS="-mod=mod -buildvcs=false" GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
cp harness/go.mod "$t/h.mod" && cp harness/go.sum "$t/h.sum" || exit 1
(cd harness && go build -modfile="$t/h.mod" -o "$t/vharness" .) || exit 1
java -version 2>/dev/null || exit 1
echo "setup ok"
