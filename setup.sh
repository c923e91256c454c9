#!/bin/bash
# nothing to install: every check compiles what it needs from /repo itself
set -e
for t in goto-cc goto-instrument cbmc clang cmake ninja re2c python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p "$(dirname "$0")/evidence"
