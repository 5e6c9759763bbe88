#!/bin/sh
# Cargo calls this instead of rustc.  Adds basic-block callbacks to the crates
# whose execution the simulator must be able to preempt.
name=
prev=
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name=$a; fi
  prev=$a
done
case "$name" in
  jf_*|w_*|rayon|rayon_core|crossbeam_*|ark_poly|ark_ec)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=2 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
  *)
    exec "$@" ;;
esac
