#!/bin/bash
# Builds the harness once, to show that it does (each check builds it again from /repo's current tree).
here=$(cd "$(dirname "$0")" && pwd)
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -d "$d" ] && PATH="$d:$PATH"; done
export PATH HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly
tmp=$(mktemp -d /tmp/vh-build.XXXXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
go build -C "$here/harness" -o "$tmp/vh" . && CGO_ENABLED=1 go build -C "$here/harness" -race -o "$tmp/vh-race" .
