#!/bin/bash
# Nothing to compile ahead of time: every check rebuilds what it needs from /repo. Verify that the tools are there.
set -e
cd "$(dirname "$0")"
for t in python3-vt clang++ g++ yasm objdump objcopy readelf qemu-x86_64 z3 cvc5; do command -v "$t" >/dev/null || { echo "missing tool: $t"; exit 1; }; done
python3-vt -c 'import z3, cvc5'
mkdir -p scratch evidence
echo setup ok
