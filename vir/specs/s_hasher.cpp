// C06: which hashing backend is used, for every CPUID answer.
#include "vir.hpp"
#include "ssz/hasher.cpp"

using ssz::Hasher;
// what the CPU answers: register reg (0 eax, 1 ebx, 2 ecx, 3 edx) of a leaf, subleaf 0 (leaf 0 eax: the largest leaf)
extern "C" uint32_t vir_cpuid(uint32_t leaf, uint32_t reg);

static bool has(uint32_t leaf, uint32_t reg, int bit) { return vir_cpuid(0, 0) >= leaf && ((vir_cpuid(leaf, reg) >> bit) & 1); }
static bool cpu_sha() { return has(7, 1, 29); }
static bool cpu_avx2() { return has(7, 1, 5); }
static bool cpu_avx() { return has(1, 2, 28); }
static bool cpu_sse3() { return has(1, 2, 0); }

static Hasher::SHA256_hasher best() {
    if (cpu_sha()) return &::sha256_shani;
    if (cpu_avx2()) return &::sha256_8_avx2;
    if (cpu_avx()) return &::sha256_4_avx;
    return &Hasher::sha256_sse;
}

SPEC spec_implemented() {
    int r = static_cast<int>(Hasher::implemented());
    ASSERT((r & 8) == (cpu_sha() ? 8 : 0), "features/sha");
    ASSERT((r & 4) == (cpu_avx2() ? 4 : 0), "features/avx2");
    ASSERT((r & 2) == (cpu_avx() ? 2 : 0), "features/avx");
    ASSERT((r & 1) == (cpu_sse3() ? 1 : 0), "features/sse");
    ASSERT((r & ~15) == 0, "features/nothing-else");
}

SPEC spec_best() { ASSERT(Hasher::best_sha256_implementation() == best(), "first-supported-backend"); }

SPEC spec_automatic() {
    Hasher h;
    ASSERT(h._hash_64b_blocks == best(), "automatic-choice");
}

SPEC spec_requested() {
    Hasher a(Hasher::IMPL::SHA), b(Hasher::IMPL::AVX2), c(Hasher::IMPL::AVX), d(Hasher::IMPL::SSE);
    ASSERT(a._hash_64b_blocks == &::sha256_shani, "requested/sha");
    ASSERT(b._hash_64b_blocks == &::sha256_8_avx2, "requested/avx2");
    ASSERT(c._hash_64b_blocks == &::sha256_4_avx, "requested/avx");
    ASSERT(d._hash_64b_blocks == &Hasher::sha256_sse, "requested/sse");
}

SPEC spec_none() {
    Hasher h(Hasher::IMPL::NONE);
    ASSERT(h._hash_64b_blocks == best(), "requested/none-is-automatic");
}
