#!/bin/bash
# RUSTC_WRAPPER: block-level instrumentation (scheduling points) for the code under test only.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; break; fi
  prev="$a"
done
case "$name" in
  vfs|utils|arc_swap|parsa|parsa_python|parsa_python_cst|logging_config|licensing|drive)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *) exec "$rustc" "$@" ;;
esac
