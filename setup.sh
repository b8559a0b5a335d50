#!/bin/bash
# Warms the build cache; every check builds what it needs by itself.
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
cd "$(dirname "$0")" || exit 2
bash tools/gen_registry.sh && (cd engine && go build -o /dev/null .) && (cd harness && go build ./... )
