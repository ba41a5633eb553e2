#!/bin/bash
# Builds the symbolic executor from the committed sources (offline).
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
mkdir -p bin evidence out
cd engine && go build -o ../bin/gosym .
