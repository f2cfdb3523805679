#!/bin/bash
# Warms the Go build cache; the checks build everything themselves.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
tmp=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 1
cp -r "$here/harness" "$tmp/src" && cd "$tmp/src" && go build -o "$tmp/vh" . && go build -race -o "$tmp/vh-race" .
rc=$?
rm -rf "$tmp"
exit $rc
