#!/bin/bash
# check.sh <property> [quick|thorough] [vmon flags...]: builds the monitors against
# /repo's working tree and runs those of one property.
set -u
prop="$1"; shift
tier="${VERIF_TIER:-quick}"
case "${1:-}" in quick|thorough) tier="$1"; shift;; esac
root="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
tmp="$(mktemp -d /tmp/vmon.XXXXXX)" || exit 3
trap 'rm -rf "$tmp"' EXIT
race=""
case "$prop" in C27) race="-race";; esac
# build from a copy of go.mod/go.sum so that the committed ones never change
cp "$root/harness/go.mod" "$tmp/go.mod"; cp "$root/harness/go.sum" "$tmp/go.sum"
if ! (cd "$root/harness" && go build $race -modfile="$tmp/go.mod" -o "$tmp/vmon" .) 2>"$tmp/build.log"; then
  cat "$tmp/build.log" >&2
  echo "BUILD-ERROR property=$prop: the monitors do not build against /repo" >&2
  exit 3
fi
"$tmp/vmon" -prop "$prop" -tier "$tier" -root "$root" "$@"
rc=$?
exit $rc
