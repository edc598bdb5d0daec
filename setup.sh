#!/bin/sh
# Nothing is built ahead of time: every check compiles what it needs from /repo's current tree.  This only verifies that the
# tools the checks use are present.
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replay
command -v clang++-18 >/dev/null || command -v clang++ >/dev/null
command -v g++ >/dev/null
python3-vt -c 'import z3, mpmath, sympy; print("z3", z3.get_version_string())'
