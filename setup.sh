#!/bin/sh
# Nothing to fetch or build ahead: every check compiles /repo's current sources itself (objects cached in .cache).
set -e
cd "$(dirname "$0")"
mkdir -p .cache .build replays evidence
for t in clang++ opt llvm-link llvm-nm cvc5 c++filt ld.lld; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
/opt/veriftools/pyvenv/bin/python -c 'import z3; print("z3", z3.get_version_string())'
