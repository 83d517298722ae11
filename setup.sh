#!/bin/bash
# Nothing is built ahead of time: every check compiles /repo's current sources.
set -e
for t in goto-cc goto-instrument cbmc gcc clang python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
cbmc --version
