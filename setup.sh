#!/bin/bash
# builds the condition generator from the committed sources, offline
. /opt/vp/env.sh 2>/dev/null || { export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0; }
cd "$(dirname "$(readlink -f "$0")")/govc" && go build -o govc . 
