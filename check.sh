#!/bin/bash
# check.sh PROPERTY quick|thorough: build the simulator against /repo's working tree, and explore.
cd "$(dirname "$0")" || exit 2
export CERTSIM_HOME=$PWD
export CARGO_TARGET_DIR=$PWD/sim/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
if ! out=$(cargo build --offline --locked --manifest-path sim/Cargo.toml 2>&1); then
  printf '%s\n' "$out" | tail -60 >&2
  echo "the simulator does not build against /repo" >&2
  exit 2
fi
exec "$CARGO_TARGET_DIR/debug/certsim" check "$1" "${2:-quick}"
