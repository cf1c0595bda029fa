#!/bin/bash
# Rebuilds the simulator against /repo's working tree and runs one check.
#   check.sh C07            VERIF_SEED, VERIF_TIER from the environment
#   check.sh setup          build only
cd "$(dirname "$0")/sim" || exit 2
export VERIF_DIR="$(cd .. && pwd)"
export CARGO_TERM_COLOR=never
unset RUSTFLAGS
if ! cargo build --release --offline >"$VERIF_DIR/sim/build.log" 2>&1; then
  tail -40 "$VERIF_DIR/sim/build.log" >&2
  echo "the simulator does not build against /repo" >&2
  exit 2
fi
[ "$1" = setup ] && exit 0
exec ./target/release/obsim check "$@"
