#!/bin/bash
# Builds the harness, with the crate under test built from /repo's working tree and instrumented.
cd "$(dirname "$0")" || exit 3
mkdir -p target
rm -rf target/release/.fingerprint/lolcode_ast*
if ! RUSTC_WRAPPER="$PWD/rustc-wrap.sh" cargo build --release --offline --quiet >target/build.log 2>&1; then
    tail -60 target/build.log >&2
    exit 3
fi
