#!/bin/bash
# Builds the engine once (warms the Go build cache) and checks that the pinned tools answer.
cd "$(dirname "$0")/engine" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod
out="$(mktemp -d /tmp/vengine.XXXXXX)" && go build -o "$out/vengine" . ; rc=$?
rm -rf "$out"
z3-new --version || z3 --version
exit $rc
