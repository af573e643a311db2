#!/bin/bash
# usage: check.sh <property id> [dump options]; decides one property on /repo's working tree.
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$HERE/bin"
BIN="$HERE/bin/analyzer"
if ! (cd "$HERE/analyzer" && GOFLAGS=-mod=mod go build -o "$BIN" .); then
  if [ "$1" = build ]; then exit 1; fi
  echo "the analyzer does not build"
  exit 2
fi
[ "$1" = build ] && exit 0
exec env GOFLAGS=-mod=readonly "$BIN" -verif "$HERE" -repo "${VERIF_REPO:-/repo}" "$@"
