#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the engine from the committed sources (cached) and decides PROPERTY
# for /repo's current working tree.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
unset UPDATE_SNAPS NO_COLOR
[ -n "$2" ] && export VERIF_TIER=$2
mkdir -p bin
(cd engine && go build -o ../bin/gosym .) || exit 2
exec bin/gosym -property "$1"
