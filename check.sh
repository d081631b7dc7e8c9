#!/bin/bash
# check.sh ID: builds from /repo's working tree, then decides property ID by simulation.
cd "$(dirname "$0")" || exit 2
log=$(mktemp) || exit 2
if ! ./build.sh >"$log" 2>&1; then tail -40 "$log" >&2; rm -f "$log"; echo "check.sh: the build failed" >&2; exit 2; fi
rm -f "$log"
export FIGSIM_ROOT="$PWD"
exec ./sim/target/release/figsim check "$1"
