#!/bin/bash
# Builds the harness once (plain and race-detector builds) so that the checks find a
# warm build cache. Offline; nothing is left behind except Go's build cache.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vh.XXXXXX") || exit 3
trap 'rm -rf "$tmp"' EXIT
cp -a "$here/harness" "$tmp/src" && cd "$tmp/src" || exit 3
go build -o "$tmp/vh" . && go build -race -o "$tmp/vhrace" . && "$tmp/vh" list
