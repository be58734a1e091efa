#!/bin/bash
# Warms the build cache: compiles every check once.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp "$here/harness/go.mod" "$tmp/go.mod"; cp "$here/harness/go.sum" "$tmp/go.sum"
cd "$here/harness" || exit 1
go build -modfile="$tmp/go.mod" -o "$tmp/" ./c* || exit 1
for f in c*/RACE; do
  [ -f "$f" ] && { CGO_ENABLED=1 go build -race -modfile="$tmp/go.mod" -o "$tmp/race" "./$(dirname "$f")" || exit 1; }
done
exit 0
