#!/bin/bash
# RUSTC_WRAPPER: instruments only the crate under test with edge callbacks
# (__sanitizer_cov_trace_pc_guard, defined in the harness), for deterministic fuel and coverage.
rustc="$1"; shift
case " $* " in
*" --crate-name lolcode_ast "*)
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
