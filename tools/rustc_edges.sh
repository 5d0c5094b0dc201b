#!/bin/sh
# Compiles the library and what is generic in it with a call at every basic block and every access to memory (see sim/core/src/rt.rs).
rustc=$1
shift
case " $* " in
*" --crate-name funcmap "* | *" --crate-name funcmap_sim "* | *" --crate-name funcmap_derive_sut "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores
    ;;
esac
exec "$rustc" "$@"
