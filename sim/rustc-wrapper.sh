#!/bin/sh
# Instruments dynparser and idata: a callback at every edge, load, store and atomic operation.
rustc="$1"; shift
case " $* " in
  *" --crate-name dynparser "*|*" --crate-name idata "*)
    exec "$rustc" "$@" -Clto=off -Cembed-bitcode=no -Cpasses="sancov-module tsan" \
      -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
      -Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores \
      -Cllvm-args=-tsan-instrument-func-entry-exit=0 ;;
esac
exec "$rustc" "$@"
