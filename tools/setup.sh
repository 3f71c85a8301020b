#!/bin/bash
# Builds the verifier from the committed sources, offline.
cd "$(dirname "$0")/.." || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p bin && cd govc && go build -o ../bin/govc .
