#!/bin/bash
# warms the build cache; nothing else is kept
cd "$(dirname "$0")" || exit 2
D=$(mktemp -d /tmp/mcbin.XXXXXX) || exit 2
trap 'rm -rf "$D"' EXIT
./run.sh build "$D/mc"
(. /opt/vp/env.sh 2>/dev/null; cd mc && GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off go build -race -buildvcs=false -o "$D/mc-race" .)
