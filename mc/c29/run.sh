# sourced by check.sh: scheduling points in the library, race detector
mkdir -p "$SCRATCH/points"
go run "$VERIF/mc/points/main.go" "$REPO" "$SCRATCH/points" "$SCRATCH/points.json" +. +internal/pkgutil +internal/oapi -internal/container -internal/oapi/spec -tag -internal/oapi/config -internal/pointer || exit 3
export CGO_ENABLED=1
MC_BUILD_FLAGS=-race
# races are read from the counter of the detector
export GORACE="exitcode=0 log_path=$SCRATCH/race"
export MC_EXTRA_OVERLAY=$SCRATCH/points.json
python3 "$VERIF/mc/overlay.py" "$REPO" "$VERIF" "$id" "$SCRATCH/overlay.json" || exit 3
if ! ( cd "$REPO" && go build -race -overlay "$SCRATCH/overlay.json" -o "$MC_BIN/probe" . ) 2>"$SCRATCH/probe.err"; then
  # uses something of sync which is not replaced: threads then run whole calls
  unset MC_EXTRA_OVERLAY
  export MC_UNCONTROLLED=1
fi
