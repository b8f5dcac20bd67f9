#!/bin/bash
# check.sh PROPERTY [TIER]: decide one property on /repo's current tree.
cd "$(dirname "$0")" || exit 1
V=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0 GO111MODULE=on GOWORK=off
B="$V/.build"
mkdir -p "$B" "$V/evidence"
( flock 9
  cd "$V/analyzer" && go build -o "$B/ferrycheck" . ) 9>"$B/lock" >"$B/build.log" 2>&1
if [ ! -x "$B/ferrycheck" ]; then
  cat "$B/build.log"
  echo "VIOLATION property=$1 replay=$B/build.log"
  exit 1
fi
"$B/ferrycheck" -repo "${FERRY_REPO:-/repo}" -verif "$V" -tier "${2:-quick}" "$1"
r=$?
[ $r -eq 0 ] && exit 0
if [ $r -ne 1 ]; then echo "VIOLATION property=$1 replay=$V/evidence/$1.json"; fi
exit 1
