#!/bin/bash
# usage: check.sh ID [driver flags]   (run in /verif)
# Builds the check program for property ID against the working tree of
# ${VERIF_REPO:-/repo} and runs it. Exit 0 held, 1 VIOLATION, anything else: error.
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh ID}; shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS
export VERIF_DIR=$here VERIF_REPO=${VERIF_REPO:-/repo}
bin=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
sed "s#=> /repo#=> $VERIF_REPO#" "$here/harness/go.mod" > "$bin/go.mod" || exit 3
cp "$here/harness/go.sum" "$bin/go.sum" || exit 3
pkg=$(echo "$id" | tr 'A-Z' 'a-z')
race=
if [ -f "$here/harness/$pkg/RACE" ]; then race=-race; export CGO_ENABLED=1; export GORACE="halt_on_error=1 atexit_sleep_ms=0"; fi
(cd "$here/harness" && go build $race -modfile="$bin/go.mod" -o "$bin/check" "./$pkg") 1>&2 || { echo "check.sh: build failed" >&2; exit 3; }
# programs under test that a check needs as binaries
export VERIF_BIN=$bin
mkdir -p "$bin/xdg/go/telemetry" && echo "off 2020-01-01" > "$bin/xdg/go/telemetry/mode"
export CGO_ENABLED=0
if [ -f "$here/harness/$pkg/NEEDS" ]; then
  cp "$VERIF_REPO/go.mod" "$bin/repo.mod" && cp "$VERIF_REPO/go.sum" "$bin/repo.sum" || exit 3
  while read -r target name; do
    [ -z "$target" ] && continue
    (cd "$VERIF_REPO" && go build -modfile="$bin/repo.mod" -o "$bin/$name" "$target") 1>&2 || { echo "check.sh: build of $target failed" >&2; exit 3; }
  done < "$here/harness/$pkg/NEEDS"
fi
export GODEBUG=randseednop=0
"$bin/check" "$@"
