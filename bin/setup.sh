#!/bin/bash
# nothing to build ahead of time: every check compiles its harness against /repo's current tree. Only verify the tools are there.
set -e
cd "$(dirname "$0")/.."
python3-vt -c 'import z3'
command -v g++ >/dev/null; command -v clang++-18 >/dev/null || command -v clang++ >/dev/null
mkdir -p evidence
