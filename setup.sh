#!/bin/bash
# Warms the build cache; every check builds what it needs by itself.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.26.10/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
command -v go >/dev/null || { echo "go is missing" >&2; exit 1; }
( cd "${VERIF_REPO:-/repo}" && go build ./... ) || exit 1
exit 0
