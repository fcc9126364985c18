#!/bin/bash
# Builds the harness once in both modes, so that later builds find a warm cache.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
TMP="$(mktemp -d)" || exit 1
trap 'rm -rf "$TMP"' EXIT
cp -a "$HERE/harness" "$TMP/harness" || exit 1
cd "$TMP/harness" || exit 1
GOARCH=386 CGO_ENABLED=0 go build -o "$TMP/n32" ./narrow || true
go build -o "$TMP/h" . && go build -race -o "$TMP/hr" .
