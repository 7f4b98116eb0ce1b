#!/bin/bash
# Builds the monitors once (both flavours) so that the build cache is warm.
set -eu
root="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
tmp="$(mktemp -d /tmp/vmon.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
cp "$root/harness/go.mod" "$tmp/go.mod"; cp "$root/harness/go.sum" "$tmp/go.sum"
cd "$root/harness"
go build -modfile="$tmp/go.mod" -o "$tmp/vmon" .
go build -race -modfile="$tmp/go.mod" -o "$tmp/vmonr" .
"$tmp/vmon" -list >/dev/null
