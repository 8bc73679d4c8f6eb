#!/bin/bash
# setup: check that the toolchain builds the checks; nothing is installed
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p evidence
T=$(mktemp -d "${TMPDIR:-/tmp}/vx.XXXXXX") || exit 2
trap 'rm -f "$T/vx"; rmdir "$T"' EXIT
(cd mc && go build -o "$T/vx" ./cmd/vx)
