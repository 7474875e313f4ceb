#!/bin/bash
# nothing to build: the engine is Python and every check compiles its harnesses from /repo itself
set -e
cd "$(dirname "$0")"
for t in clang++ opt c++filt python3-vt cvc5; do command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }; done
python3-vt -c 'import z3'
python3-vt -m py_compile engine/*.py
