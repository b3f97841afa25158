#!/bin/bash
# check.sh PROPERTY [quick|thorough]: exit 0 = held, exit 1 = VIOLATION line printed
cd "$(dirname "$0")" || exit 1
P=$1; T=${2:-${VERIF_TIER:-quick}}
[ -x bin/govc ] || ./setup.sh >&2 || exit 1
export HOME=${HOME:-/root} TZ=Asia/Shanghai
export PATH="/opt/veriftools/go1.23.12/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GO111MODULE=on GOSUMDB=off
VERIF_TIER=$T ./bin/govc check -prop "$P" -tier "$T" -verif "$PWD" -repo "${VERIF_REPO:-/repo}"
rc=$?
[ $rc -le 1 ] || { echo "VIOLATION property=$P replay=/dev/null no-failing-input-found"; rc=1; }
exit $rc
