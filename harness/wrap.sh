#!/bin/sh
# rustc wrapper: instruments the library under test (and nothing else) with SanitizerCoverage
case " $* " in
*" --crate-name venial "*)
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1 ;;
*) exec "$@" ;;
esac
