#!/bin/bash
# Builds the symbolic executor from engine/ into bin/vx (offline; a no-op when it is up to date).
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
if [ -x bin/vx ] && [ -z "$(find engine -newer bin/vx -type f | head -1)" ]; then exit 0; fi
mkdir -p bin && cd engine && go build -o ../bin/vx ./cmd/vx
