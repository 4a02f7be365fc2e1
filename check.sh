#!/bin/bash
# check.sh BIN PROPERTY TIER: build the simulator against /repo's working tree, run one check.
# exit 0 = held on everything explored, 1 = violation (VIOLATION line), 2 = could not run.
set -u
BIN=$1 PROP=$2 TIER=$3
SEED=${VERIF_SEED:-1}
LOG=$(mktemp /tmp/rfl-build.XXXXXX)
if ! bash /verif/sim/dev.sh --bin "$BIN" >"$LOG" 2>&1; then
  tail -40 "$LOG"; rm -f "$LOG"
  echo "build failed" >&2
  exit 2
fi
rm -f "$LOG"
exec /verif/target/debug/"$BIN" check --property "$PROP" --tier "$TIER" --seed "$SEED" --root /verif
