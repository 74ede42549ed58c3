#!/bin/bash
# Fills the Go build cache; the checks build again from /repo's tree anyway.
set -eu
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS="-mod=readonly -buildvcs=false"
cd "$(dirname "$0")/harness"
T=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf "$T"' EXIT
go build -o "$T/vt" .
