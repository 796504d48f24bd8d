#!/bin/bash
# usage (cwd /repo): hashes with one backend and compares with a reference
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -r -- "$T"' EXIT
for s in sha256_avx_one_block sha256_avx sha256_avx2 sha256_shani; do yasm -f elf64 -X gnu -g dwarf2 -D LINUX -o "$T/$s.o" "ssz/$s.asm" -I . || exit 2; done
clang++ -DCUSTOM_HASHER -O2 -std=gnu++20 -w -I. "$D/sha_demo.cpp" ssz/hasher.cpp "$T"/*.o -no-pie -o "$T/demo" || exit 2
R=; grep -qw NEEDFLAG /proc/cpuinfo || R="qemu-x86_64 -cpu max"
timeout 120 $R "$T/demo" ARGS
