#!/bin/bash
# builds the verifier and the replay harness, offline
set -e
cd "$(dirname "$0")/.."
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GOWORK=off
mkdir -p bin
(cd govc && go build -o ../bin/govc .)
(cd replay && go build -o ../bin/replay .)
