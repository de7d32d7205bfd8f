#!/bin/bash
# nothing to build ahead: every check compiles /repo's current sources itself; verify the tools are here
set -e
for t in /usr/bin/clang++-18 /usr/lib/llvm-18/bin/opt /usr/lib/llvm-18/bin/llvm-link python3-vt; do command -v "$t" >/dev/null; done
python3-vt -c 'import z3'
mkdir -p "$(dirname "$0")/../evidence"
