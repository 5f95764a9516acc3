#!/bin/bash
# Builds the driver and the workers once, to see that they build offline; the
# checks build again from /repo's working tree (the Go build cache helps when
# it is kept).
here=$(cd "$(dirname "$0")" && pwd) || exit 1
tmp=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp "$here/harness/go.mod" "$tmp/s.mod" && cp "$here/harness/go.sum" "$tmp/s.sum" || exit 1
cd "$here/harness" && env -u GODEBUG -u GOARCH -u GOOS GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off \
	go build -modfile="$tmp/s.mod" -o "$tmp/" ./cmd/...
