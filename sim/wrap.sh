#!/bin/bash
# RUSTC_WRAPPER: instruments the code under test and the harness with scheduling points.
rustc="$1"; shift
prev=""; name=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
# A fixed load address: see fix_addresses in main.rs.
[ "$name" = figsim ] && set -- "$@" -Crelocation-model=static
case "$name" in
  figment|figsim) exec "$rustc" "$@" -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer -Zexternal-clangrt \
    -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 ;;
  *) exec "$rustc" "$@" ;;
esac
