#!/bin/bash
# check.sh PROPERTY TIER: verifies the property's contracts against /repo's working tree.
cd "$(dirname "$0")/.." || exit 3
bash tools/setup.sh || exit 3
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
exec bin/govc check -property "$1" -tier "$2"
