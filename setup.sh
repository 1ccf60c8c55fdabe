#!/bin/bash
# Builds the condition generator from the committed source; offline.
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p bin evidence
(cd govc && go build -o ../bin/govc .)
