#!/bin/bash
cd /verif/govc && (GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o ${GOVC_BIN:=/tmp/govc_dev} . ) || exit 2
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off
GOVC_TRACE=1 timeout ${T:-300} ${GOVC_BIN:-/tmp/govc_dev} "$@" 2>&1
