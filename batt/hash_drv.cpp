// Which backend the real selection code picks under made-up CPUID answers: prints "BAD <json>" for the first wrong choice.
#include <cpuid.h>
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <cstring>
static uint32_t max_leaf, l1[4], l7[4];
static void answer(uint32_t leaf, uint32_t, uint32_t* r) {
    uint32_t z[4] = {max_leaf, 0x756e6547, 0x6c65746e, 0x49656e69};
    std::memcpy(r, leaf == 0 ? z : leaf == 1 ? l1 : leaf == 7 ? l7 : l1, 16);
    if (leaf > max_leaf) std::memcpy(r, l1, 16);       // what CPUs answer beyond their last leaf is the last leaf's data
}
static int my_max(uint32_t l, uint32_t* s) { (void)s; return l & 0x80000000u ? 0 : max_leaf; }
static int my_count(uint32_t leaf, uint32_t sub, uint32_t* a, uint32_t* b, uint32_t* c, uint32_t* d) {
    if (my_max(leaf & 0x80000000u, 0) == 0 || (uint32_t)my_max(leaf & 0x80000000u, 0) < leaf) return 0;
    uint32_t r[4]; answer(leaf, sub, r); *a = r[0]; *b = r[1]; *c = r[2]; *d = r[3];
    return 1;
}
static int my_cpuid(uint32_t leaf, uint32_t* a, uint32_t* b, uint32_t* c, uint32_t* d) { return my_count(leaf, 0, a, b, c, d); }
#undef __cpuid
#undef __cpuid_count
#define __cpuid(l, a, b, c, d) do { uint32_t r_[4]; answer(l, 0, r_); a = r_[0]; b = r_[1]; c = r_[2]; d = r_[3]; } while (0)
#define __cpuid_count(l, s, a, b, c, d) __cpuid(l, a, b, c, d)
#define __get_cpuid my_cpuid
#define __get_cpuid_count my_count
#define __get_cpuid_max my_max
#include "ssz/hasher.cpp"
static int ran;
extern "C" void sha256_1_avx(unsigned char*, const unsigned char*) { ran = 1; }
extern "C" void sha256_4_avx(unsigned char*, const unsigned char*, std::size_t) { ran = 2; }
extern "C" void sha256_8_avx2(unsigned char*, const unsigned char*, std::size_t) { ran = 4; }
extern "C" void sha256_shani(unsigned char*, const unsigned char*, std::size_t) { ran = 8; }
using ssz::Hasher;
static int which(const Hasher& h) { unsigned char o[32], i[64] = {}; ran = 0; h.hash_64b_blocks(o, i, 1); return ran; }
static std::string ctx() {
    char b[300]; std::snprintf(b, sizeof b, "CPUID largest leaf %u, leaf 1 ecx %08x, leaf 7 ebx %08x", max_leaf, l1[2], l7[1]); return b;
}
static void bad(const char* w, int got, int want) {
    std::printf("BAD {\"what\": \"%s: got %d, expected %d (1 portable, 2 AVX, 4 AVX2, 8 SHA-NI)\", \"cpu\": \"%s\"}\n", w, got, want, ctx().c_str()); std::exit(1);
}
int main(int n, char** v) {
    uint64_t s = n > 1 ? std::strtoull(v[1], 0, 10) * 2654435761u + 1 : 1;
    auto rnd = [&] { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return uint32_t(s >> 16); };
    const uint32_t ms[] = {1, 2, 6, 7, 8, 13, 0x20};
    long cases = 0;
    for (int noise = 0; noise < 40; noise++) for (uint32_t m : ms) for (int f = 0; f < 16; f++) {
        max_leaf = m;
        for (int i = 0; i < 4; i++) { l1[i] = noise == 0 ? 0 : noise == 1 ? ~0u : rnd(); l7[i] = noise == 0 ? 0 : noise == 1 ? ~0u : rnd(); }
        auto put = [](uint32_t& w, int b, int x) { w = (w & ~(1u << b)) | uint32_t(x) << b; };
        put(l1[2], 0, f & 1); put(l1[2], 28, f >> 1 & 1); put(l7[1], 5, f >> 2 & 1); put(l7[1], 29, f >> 3 & 1);
        int w = m >= 7 ? f : f & 3;
        int best = w & 8 ? 8 : w & 4 ? 4 : w & 2 ? 2 : 1;
        int g = (int)Hasher::implemented(); if (g != w) bad("reported features (sum)", g, w);
        { Hasher h; if ((g = which(h)) != best) bad("automatic choice", g, best); }
        { Hasher h{Hasher::IMPL::NONE}; if ((g = which(h)) != best) bad("request for none", g, best); }
        for (int r : {1, 2, 4, 8}) { Hasher h{(Hasher::IMPL)r}; if ((g = which(h)) != r) bad("explicit request", g, r); }
        cases += 7;
    }
    std::printf("OK cases=%ld\n", cases);
}
