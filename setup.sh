#!/bin/bash
# Build the analyzer once (check.sh builds it again when it is missing).
cd "$(dirname "$0")/analyzer" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0 GO111MODULE=on GOWORK=off
mkdir -p ../.build ../evidence
go build -o ../.build/ferrycheck .
