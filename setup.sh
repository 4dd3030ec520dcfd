#!/bin/bash
# Nothing is built ahead: every check builds from /repo's current tree in a scratch directory.
set -e
cd "$(dirname "$0")"
for t in cargo cbmc goto-cc z3 python3; do command -v $t >/dev/null || { echo "missing tool $t"; exit 1; }; done
test -d "${KANI_HOME:-$HOME/.kani}" || { echo "missing kani"; exit 1; }
mkdir -p evidence
