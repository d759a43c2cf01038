#!/bin/bash
# replay.sh FILE: repeat a reported run. Exit 1 and the VIOLATION line when it fails again.
cd "$(dirname "$0")" || exit 2
export CERTSIM_HOME=$PWD
export CARGO_TARGET_DIR=$PWD/sim/target
cargo build --offline --locked --manifest-path sim/Cargo.toml >/dev/null 2>&1 || exit 2
exec "$CARGO_TARGET_DIR/debug/certsim" replay "$1"
