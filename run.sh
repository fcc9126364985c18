#!/bin/bash
# run.sh ID [--replay FILE]: builds the harness from /repo's current tree and
# runs the monitors of property ID. VERIF_SEED and VERIF_TIER are honoured.
# Exit 0: held; 1: VIOLATION line printed; 2: no verdict.
set -u
ID="${1:?usage: run.sh ID [--replay FILE]}"
shift
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$HERE"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off
export GOPATH="${GOPATH:-/root/go}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOMODCACHE="${GOMODCACHE:-$GOPATH/pkg/mod}"
TMP="$(mktemp -d "${TMPDIR:-/tmp}/verif-run.XXXXXX")" || exit 2
trap 'rm -rf "$TMP"' EXIT
# build from a copy so that the go command never rewrites committed files
cp -a "$HERE/harness" "$TMP/harness" || exit 2
# the decoders on a platform with a 32-bit int (harness/narrow.go); the sections
# that use it decide nothing where this build does not work
case "$ID" in C03|C05|C06)
  mkdir "$TMP/narrow"
  (cd "$TMP/harness" && go build -o "$TMP/narrow/n64" ./narrow && GOARCH=386 CGO_ENABLED=0 go build -o "$TMP/narrow/n32" ./narrow) >"$TMP/narrow.log" 2>&1 &
  export VERIF_NARROW="$TMP/narrow";;
esac
RACE=""
if [ "$ID" = C11 ]; then RACE="-race"; fi
if ! (cd "$TMP/harness" && go build $RACE -o "$TMP/h" .) >"$TMP/build.log" 2>&1; then
  echo "build failed:" >&2
  cat "$TMP/build.log" >&2
  exit 2
fi
wait
export TMPDIR="$TMP"
ARGS=(-prop "$ID")
if [ "${1:-}" = "--replay" ]; then ARGS+=(-replay "$2"); fi
"$TMP/h" "${ARGS[@]}"
exit $?
