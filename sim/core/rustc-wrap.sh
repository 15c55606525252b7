#!/bin/bash
# Called by cargo as: rustc-wrap.sh RUSTC ARGS...
# Adds callbacks at basic blocks and atomic operations (the scheduler's preemption points) to the
# crates of the code under test, and to nothing else.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  encoding|embedding|three_bit_quantization|image_features|zernike|pseudo_zernike|moments|feature|signature|watermarking|utils)
    if [ "${CARGO_PKG_VERSION:-}" != "0.0.1" ] && [[ "${CARGO_MANIFEST_DIR:-}" == /repo/* ]]; then
      exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=2 \
        -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cpasses=tsan -Cllvm-args=-tsan-instrument-func-entry-exit=0
    fi;;
esac
exec "$rustc" "$@"
