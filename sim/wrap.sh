#!/bin/sh
# RUSTC_WRAPPER: instruments barcoders and the crate that instantiates its generics.
# SIM_MODE=release additionally turns the library code itself into an optimised build.
rustc="$1"; shift
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; break; fi
  prev="$a"
done
case "$name" in
  barcoders|simops)
    set -- "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-loads \
      -C llvm-args=-sanitizer-coverage-trace-stores -C codegen-units=4
    [ "$SIM_MODE" = release ] && set -- "$@" -C opt-level=2 -C overflow-checks=off -C debug-assertions=off
    ;;
esac
exec "$rustc" "$@"
