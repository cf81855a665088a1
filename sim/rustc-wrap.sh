#!/bin/sh
# As rustc; the crate under test also calls the simulator at every edge of its control flow, and at comparisons.
rustc="$1"
shift
case " $* " in
*" --crate-name jbcrs "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
        -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-compares \
        -C llvm-args=-sanitizer-coverage-pc-table -C llvm-args=-max-loads-per-memcmp=0 -C codegen-units=1
    ;;
*) exec "$rustc" "$@" ;;
esac
