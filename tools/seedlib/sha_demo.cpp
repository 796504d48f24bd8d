// Demonstration driver: hashes n blocks with one backend and compares with a plain SHA-256.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "ssz/hasher.hpp"
static uint32_t rr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static const uint32_t K[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static void comp(uint32_t *h, const uint8_t *p) {
    uint32_t w[64], a[8];
    for (int i = 0; i < 16; i++) w[i] = p[4*i] << 24 | p[4*i+1] << 16 | p[4*i+2] << 8 | p[4*i+3];
    for (int i = 16; i < 64; i++) w[i] = (rr(w[i-2],17)^rr(w[i-2],19)^(w[i-2]>>10)) + w[i-7] + (rr(w[i-15],7)^rr(w[i-15],18)^(w[i-15]>>3)) + w[i-16];
    memcpy(a, h, 32);
    for (int i = 0; i < 64; i++) {
        uint32_t t = a[7] + (rr(a[4],6)^rr(a[4],11)^rr(a[4],25)) + ((a[4]&a[5])^(~a[4]&a[6])) + K[i] + w[i];
        uint32_t u = (rr(a[0],2)^rr(a[0],13)^rr(a[0],22)) + ((a[0]&a[1])^(a[0]&a[2])^(a[1]&a[2]));
        for (int j = 7; j; j--) a[j] = a[j-1];
        a[4] += t; a[0] = t + u;
    }
    for (int i = 0; i < 8; i++) h[i] += a[i];
}
void ref_sha(uint8_t *o, const uint8_t *p) {
    uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    uint8_t pad[64] = {0x80}; pad[62] = 2;
    comp(h, p); comp(h, pad);
    for (int i = 0; i < 32; i++) o[i] = h[i/4] >> (24 - 8*(i%4));
}
int main(int argc, char **argv) {
    using I = ssz::Hasher::IMPL;
    std::string b = argv[1];
    ssz::Hasher h{b == "sha" ? I::SHA : b == "avx2" ? I::AVX2 : b == "avx" ? I::AVX : I::SSE};
    size_t mis = atoi(argv[2]);
    for (int a = 3; a < argc; a++) {
        size_t n = atol(argv[a]);
        std::vector<uint8_t> in(64*n + 1), bufv(32*n + 256, 0xA5);
        uint32_t s = 12345 + n;
        for (auto &x : in) { s = s*1664525u + 1013904223u; x = s >> 24; }
        uint8_t *out = bufv.data() + 64; out += (64 - (uintptr_t(out) % 64)) % 64 + mis;
        std::vector<uint8_t> before(bufv);
        h.hash_64b_blocks(out, in.data(), n);
        for (size_t i = 0; i < n; i++) { uint8_t r[32]; ref_sha(r, &in[64*i]); if (memcmp(r, out + 32*i, 32)) { printf("%s: n=%zu block %zu wrong\n", b.c_str(), n, i); return 1; } }
        size_t o = out - bufv.data();
        for (size_t i = 0; i < bufv.size(); i++) if ((i < o || i >= o + 32*n) && bufv[i] != before[i]) { printf("wrote outside\n"); return 1; }
    }
    puts("ok"); return 0;
}
