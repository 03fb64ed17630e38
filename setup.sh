#!/bin/bash
# Warms the Go build cache (both with and without the race detector). Every
# check also builds on its own, so nothing depends on what this leaves behind.
cd "$(dirname "$0")/harness" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
cp go.mod "$W/m.mod" && cp go.sum "$W/m.sum" || exit 1
for d in cmd/*/; do
  n=$(basename "$d")
  if [ "$n" = conc ]; then
    CGO_ENABLED=1 go build -modfile="$W/m.mod" -race -o "$W/$n" "./cmd/$n" || exit 1
  else
    CGO_ENABLED=0 go build -modfile="$W/m.mod" -o "$W/$n" "./cmd/$n" || exit 1
  fi
done
CGO_ENABLED=0 go build -modfile="$W/m.mod" -tags vals "-gcflags=./cmd/coll=-N -l" -o "$W/vals" ./cmd/coll || exit 1
