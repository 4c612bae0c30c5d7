#!/bin/bash
# Builds the harness, pkgr and its race-detector build once, to show that everything is there and to warm the build cache.
set -u
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
B=$(mktemp -d /tmp/vb-XXXXXX) || exit 1
trap 'rm -rf "$B"' EXIT
(cd harness && GOFLAGS=-mod=mod GOWORK=off go build -o "$B/" ./cmd/fakeR ./cmd/vrun) || exit 1
(cd "${VERIF_REPO:-/repo}" && GOFLAGS=-mod=readonly GOWORK=off go build -buildvcs=false -o "$B/pkgr" ./cmd/pkgr && GOFLAGS=-mod=readonly GOWORK=off go build -race -buildvcs=false -o "$B/pkgr-race" ./cmd/pkgr) || exit 1
echo "setup ok"
