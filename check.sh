#!/bin/bash
# usage: check.sh ID     (VERIF_SEED, VERIF_TIER from the environment)
# Builds the harness against /repo's current working tree and decides one property.
# exit 0: held; 1: VIOLATION line printed; anything else: error of the check.
set -u
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
export GOFLAGS="-mod=readonly -buildvcs=false"
unset GOOS GOARCH
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
ID=${1:?usage: check.sh ID}
TMP=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "$TMP"' EXIT
RACE=
if [ "$ID" = C30 ] && ( cd harness && go build -race -o "$TMP/vt" . ) >/dev/null 2>&1; then RACE=1; fi
if [ -z "$RACE" ] && ! ( cd harness && go build -o "$TMP/vt" . ) >"$TMP/build.log" 2>&1; then
  cat "$TMP/build.log" >&2
  echo "harness does not build against /repo" >&2
  exit 2
fi
export TMPDIR=$TMP
"$TMP/vt" check "$ID"
exit $?
