# sourced by check.sh: the runtime's map iteration with a hook
python3 "$VERIF/mc/maporder/patch.py" "$(go env GOROOT)" "$SCRATCH" "$SCRATCH/maps.json" || exit 3
export MC_EXTRA_OVERLAY=$SCRATCH/maps.json
MC_BUILD_FLAGS=-ldflags=-checklinkname=0
