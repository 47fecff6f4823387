#!/bin/bash
# check.sh <property>: decides one property on /repo's current source (see DESIGN.md).
cd "$(dirname "$0")" || exit 3
VERIF=$PWD
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
mkdir -p evidence
T=$(mktemp -d /tmp/govc.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
(cd govc && go build -o "$T/govc" .) || exit 3
"$T/govc" -repo "${VERIF_REPO:-/repo}" -verif "$VERIF" -specs "$VERIF/specs" -limit "${GOVC_LIMIT:-200s}" run "$1"
