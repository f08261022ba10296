#!/bin/bash
# RUSTC_WRAPPER for the guided build: instruments the crate under test and the crate its
# generic functions are instantiated in
rustc=$1
shift
case " $* " in
*" --crate-name radixdb "* | *" --crate-name rv "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
        -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-pc-table \
        -Cllvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$rustc" "$@"
