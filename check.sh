#!/bin/bash
# check.sh <ID> [--replay FILE] [harness flags]: builds the harness of one property
# together with the code in /repo's working tree and runs it.
set -u
ID=$1; shift
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.26.10/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
id=$(echo "$ID" | tr 'A-Z' 'a-z')
SCRATCH=$(mktemp -d /tmp/mc-$id-XXXXXX) || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
export MC_BIN=$SCRATCH/bin MC_REPO=$REPO MC_VERIF=$VERIF
mkdir -p "$MC_BIN" "$SCRATCH/tmp"
if [ -x "$VERIF/mc/$id/run.sh" ]; then
  . "$VERIF/mc/$id/run.sh"
fi
python3 "$VERIF/mc/overlay.py" "$REPO" "$VERIF" "$id" "$SCRATCH/overlay.json" || exit 3
( cd "$REPO" && go build ${MC_BUILD_FLAGS:-} -overlay "$SCRATCH/overlay.json" -o "$MC_BIN/mc" "./internal/verifmc/$id" ) || { echo "check.sh: building the harness failed" >&2; exit 3; }
if [ -n "${MC_NEED_CLI:-}" ]; then
  ( cd "$REPO" && go build -o "$MC_BIN/oapi" ./cmd/oapi ) || { echo "check.sh: building cmd/oapi failed" >&2; exit 3; }
fi
export TMPDIR=$SCRATCH/tmp
export MC_REALGOPATH=$GOPATH
export GOPATH=$SCRATCH/mc-gopath-unset
export MC_STDSTUB=$VERIF/mc/stdstub
export GOPACKAGESDRIVER=$VERIF/mc/driver.sh
"$MC_BIN/mc" -verif "$VERIF" "$@"
code=$?
exit $code
