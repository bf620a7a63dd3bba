# sourced by check.sh: the command, with system calls that can be made to fail
python3 "$VERIF/mc/faults/patch.py" "$(go env GOROOT)" "$SCRATCH" "$SCRATCH/faults.json" || exit 3
( cd "$REPO" && go build -overlay "$SCRATCH/faults.json" -o "$MC_BIN/oapi" ./cmd/oapi ) || { echo "building cmd/oapi failed" >&2; exit 3; }
