#!/bin/sh
# Adds basic-block guards (the simulator's scheduling/crash/step seam) to the
# crate under test only; every other crate is compiled as usual.
rustc="$1"; shift
inst=0; prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = "skillratings" ]; then inst=1; fi
  prev="$a"
done
if [ $inst = 1 ]; then
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=1
fi
exec "$rustc" "$@"
