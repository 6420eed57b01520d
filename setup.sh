#!/bin/bash
# builds the verifier and warms the build cache (offline)
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p bin evidence
cd govc && go build -o ../bin/govc .
