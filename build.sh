#!/bin/bash
# Builds the verifier from the committed sources, offline, into /verif/.build.
set -e
cd "$(dirname "$0")"
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
export PATH=/usr/local/bin:/usr/local/go/bin:/opt/veriftools/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
mkdir -p .build
(cd gover && go build -o ../.build/gover.$$ . && mv ../.build/gover.$$ ../.build/gover)
