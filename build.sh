#!/bin/bash
# Builds the simulator and the code under test from /repo's working tree.
cd "$(dirname "$0")/sim/harness" || exit 2
export RUSTC_BOOTSTRAP=1 RUSTC_WRAPPER="$(cd .. && pwd)/wrap.sh" CARGO_TARGET_DIR="$(cd .. && pwd)/target"
exec cargo build --release --offline "$@"
