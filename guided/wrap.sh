#!/bin/sh
# RUSTC_WRAPPER: instruments the library under test and the probe, nothing else
case " $* " in
*" --crate-name crypto_pure "* | *" --crate-name probe "*)
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
        -Cllvm-args=-sanitizer-coverage-trace-compares -Cllvm-args=-sanitizer-coverage-trace-divs -Cllvm-args=-sanitizer-coverage-prune-blocks=0 \
        -Cllvm-args=-max-loads-per-memcmp=0 ;;
*) exec "$@" ;;
esac
