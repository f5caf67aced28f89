#!/bin/bash
# Warms the Go build cache (the checks rebuild from /repo themselves).
cd "$(dirname "$0")" || exit 2
export PATH=/opt/veriftools/go1.25.14/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p .build evidence
cd mc && go build -o ../.build/setup.bin . && rm -f ../.build/setup.bin
