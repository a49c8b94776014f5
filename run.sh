#!/bin/bash
# run.sh setup | run.sh <property> quick|thorough | run.sh replay <file>
# Rebuilds the crate under test from /repo's working tree, then runs one check.
# Exit 0: held; 1: violated (a VIOLATION line is printed); anything else: no answer.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
"$here/harness/build.sh" || { echo "error: the harness does not build" >&2; exit 3; }
bin="$here/harness/target/release/harness"
case "$1" in
setup) exit 0 ;;
replay) exec "$bin" replay "$2" ;;
*) exec "$bin" check "$1" "${2:-quick}" ;;
esac
