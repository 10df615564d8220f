#!/bin/bash
# usage: run.sh OUTBIN [-race]   builds the harness from /repo's working tree
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="${REPO:-/repo}"
out="$1"; shift
ov="$(mktemp)"
trap 'rm -f "$ov"' EXIT
{
  echo '{"Replace":{'
  first=1
  for f in "$here"/*.go; do
    [ $first = 1 ] || echo ','
    first=0
    printf '"%s/internal/cmd/vrfharness/%s":"%s"' "$repo" "$(basename "$f")" "$f"
  done
  echo '}}'
} > "$ov"
cd "$repo"
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build "$@" -overlay "$ov" -o "$out" ./internal/cmd/vrfharness
