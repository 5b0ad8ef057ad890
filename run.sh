#!/usr/bin/env bash
# Builds the checker (offline, from the committed sources) and decides one property: run.sh <property> [repository]
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOWORK=off CGO_ENABLED=0
mkdir -p "$here/evidence" "$here/.build"
bin="$here/.build/checker.$$"
trap 'rm -f "$bin" "$bin.log"' EXIT
if ! (cd "$here/checker" && go build -o "$bin" .) >"$bin.log" 2>&1; then
  cat "$bin.log"
  cp "$bin.log" "$here/evidence/$1.report.txt"
  echo "VIOLATION property=$1 replay=$here/evidence/$1.report.txt"
  exit 1
fi
export GOFLAGS=-mod=mod
"$bin" "$@"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "the checker ended with $rc"
  echo "VIOLATION property=$1 replay=$here/evidence/$1.report.txt"
  exit 1
fi
exit $rc
