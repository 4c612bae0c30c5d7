#!/bin/bash
# check.sh CNN [vrun flags]: builds pkgr from /repo's working tree and the harness, runs the monitors of one property.
set -u
cd "$(dirname "$0")" || exit 3
V=$PWD
ID=$1; shift
REPO=${VERIF_REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
B=$(mktemp -d /tmp/vb-XXXXXX) || exit 3
trap 'rm -rf "$B"' EXIT
trap 'exit 3' TERM INT
chmod 755 "$B"
(cd "$V/harness" && GOFLAGS=-mod=mod GOWORK=off go build -o "$B/" ./cmd/fakeR ./cmd/vrun) || { echo "harness build failed" >&2; exit 3; }
LD="-X github.com/metrumresearchgroup/pkgr/cmd.VERSION=9.8.7"
(cd "$REPO" && GOFLAGS=-mod=readonly GOWORK=off go build -buildvcs=false -ldflags "$LD" -o "$B/pkgr" ./cmd/pkgr) || { echo "pkgr build failed" >&2; exit 3; }
R=
case $ID in C07)
  (cd "$REPO" && GOFLAGS=-mod=readonly GOWORK=off go build -race -buildvcs=false -ldflags "$LD" -o "$B/pkgr-race" ./cmd/pkgr) || { echo "pkgr race build failed" >&2; exit 3; }
  R="$B/pkgr-race";;
esac
"$B/vrun" -prop "$ID" -pkgr "$B/pkgr" -race "$R" -fakeR "$B/fakeR" -verif "$V" -repo "$REPO" "$@"
