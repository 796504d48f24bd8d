#!/bin/bash
# run with cwd = the repository: builds demo.cpp with the repository's sources in a scratch directory and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -r -- "$T"' EXIT
mkdir -p "$T/include" "$T/ncv/bits"
sed "s#[@\$]{\?CMAKE_SOURCE_DIR[}@]#$PWD#g" config/PRESET.hpp.in > "$T/include/config.hpp" || exit 2
# clang rejects constexpr std::vector members of incomplete element types; g++ does not
python3 - "$T/ncv/bits/" <<'P' || exit 2
import sys
s = '/usr/include/c++/13/bits/'; d = sys.argv[1]; M = '_GLIBCXX20_CONSTEXPR'
open(d + 'stl_vector.h', 'w').write(open(s + 'stl_vector.h').read().replace(M, ''))
t = open(s + 'vector.tcc').read(); j = t.rindex(M, 0, t.index('vector<bool, _Alloc>::'))
open(d + 'vector.tcc', 'w').write(t[:j].replace(M, '') + t[j:])
P
for s in sha256_avx_one_block sha256_avx sha256_avx2 sha256_shani; do yasm -f elf64 -D LINUX -o "$T/$s.o" "ssz/$s.asm" -I . || exit 2; done
for s in SOURCES; do clang++ -O1 -std=gnu++20 -w -I"$T/ncv" -I"$T" -I"$T/include" -I. FLAGS -c $s -o "$T/$(echo $s | tr / _).o" & done
clang++ -O1 -std=gnu++20 -w -I"$T/ncv" -I"$T" -I"$T/include" -I. FLAGS -c "$D/demo.cpp" -o "$T/demo.o" || exit 2
wait
clang++ FLAGS "$T"/*.o -no-pie -lyaml-cpp -o "$T/demo" || exit 2
timeout 200 "$T/demo"
