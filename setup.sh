#!/bin/bash
# builds the verifier from the committed sources, offline
cd "$(dirname "$0")/govc" || exit 1
mkdir -p ../bin
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local go build -o ../bin/govc . || exit 1
echo built
