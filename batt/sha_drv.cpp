// Concrete battery for the hashing backends (replay of failed obligations; bounded stand-in where the verifier is undecided).
// usage: sha_drv BACKEND MODE SEED ROUNDS     prints "BAD <json>" and exits 1 on the first violation, "OK cases=<k>" otherwise.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <csetjmp>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <string>
#include <vector>
#include "ssz/hasher.hpp"

extern "C" void sha256_1_avx(unsigned char*, const unsigned char*);
typedef unsigned char u8; typedef uint64_t u64; typedef uint32_t u32;
typedef void (*fn_t)(u8*, const u8*, size_t);

// ---- reference SHA-256 (FIPS 180-4), plain C
static const u32 KK[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static u32 rr(u32 x, int n) { return x >> n | x << (32 - n); }
static void comp(u32* H, const u8* p) {
    u32 w[64]; for (int i = 0; i < 16; i++) w[i] = u32(p[4*i])<<24 | u32(p[4*i+1])<<16 | u32(p[4*i+2])<<8 | p[4*i+3];
    for (int i = 16; i < 64; i++) w[i] = w[i-16] + w[i-7] + (rr(w[i-15],7)^rr(w[i-15],18)^(w[i-15]>>3)) + (rr(w[i-2],17)^rr(w[i-2],19)^(w[i-2]>>10));
    u32 a=H[0],b=H[1],c=H[2],d=H[3],e=H[4],f=H[5],g=H[6],h=H[7];
    for (int i = 0; i < 64; i++) {
        u32 t1 = h + (rr(e,6)^rr(e,11)^rr(e,25)) + ((e&f)^(~e&g)) + KK[i] + w[i];
        u32 t2 = (rr(a,2)^rr(a,13)^rr(a,22)) + ((a&b)^(a&c)^(b&c));
        h=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
    }
    H[0]+=a;H[1]+=b;H[2]+=c;H[3]+=d;H[4]+=e;H[5]+=f;H[6]+=g;H[7]+=h;
}
static void ref64(u8* out, const u8* in) {
    u32 H[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    u8 pad[64] = {0x80}; pad[62] = 2;
    comp(H, in); comp(H, pad);
    for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) out[4*i+j] = H[i] >> (24 - 8*j);
}

// ---- backends
static void b_sse(u8* o, const u8* i, size_t n) { ssz::Hasher h{ssz::Hasher::IMPL::SSE}; h.hash_64b_blocks(o, i, n); }
static void b_one(u8* o, const u8* i, size_t) { sha256_1_avx(o, i); }

// ---- call through a trampoline that poisons registers and checks the convention
extern "C" { u64 tramp_save[8]; u64 tramp_after[8]; }
// tramp(fn, out, in, n, newsp): runs fn on stack newsp with sentinels in the callee-saved registers
extern "C" void tramp(fn_t, u8*, const u8*, size_t, void* sp);
asm(R"(
.text
.globl tramp
tramp:
  push %rbp
  push %rbx
  push %r12
  push %r13
  push %r14
  push %r15
  lea tramp_save(%rip), %rax
  mov %rsp, (%rax)
  mov %r8, %rsp
  mov %rdi, %r11
  mov %rsi, %rdi
  mov %rdx, %rsi
  mov %rcx, %rdx
  movabs $0xb0b0b0b0b0b0b0b1, %rbx
  movabs $0xb1b1b1b1b1b1b1b2, %rbp
  movabs $0xb2b2b2b2b2b2b2b3, %r12
  movabs $0xb3b3b3b3b3b3b3b4, %r13
  movabs $0xb4b4b4b4b4b4b4b5, %r14
  movabs $0xb5b5b5b5b5b5b5b6, %r15
  movabs $0xa5a5a5a5a5a5a5a7, %rax
  movabs $0xa6a5a5a5a5a5a5a7, %rcx
  movabs $0xa7a5a5a5a5a5a5a7, %r8
  movabs $0xa8a5a5a5a5a5a5a7, %r9
  movabs $0xa9a5a5a5a5a5a5a7, %r10
  call *%r11
  lea tramp_after(%rip), %r11
  mov %rsp, (%r11)
  mov %rbx, 8(%r11)
  mov %rbp, 16(%r11)
  mov %r12, 24(%r11)
  mov %r13, 32(%r11)
  mov %r14, 40(%r11)
  mov %r15, 48(%r11)
  pushfq
  pop %rax
  mov %rax, 56(%r11)
  cld
  lea tramp_save(%rip), %rax
  mov (%rax), %rsp
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbx
  pop %rbp
  ret
)");
static const u64 SENT[7] = {0, 0xb0b0b0b0b0b0b0b1, 0xb1b1b1b1b1b1b1b2, 0xb2b2b2b2b2b2b2b3, 0xb3b3b3b3b3b3b3b4, 0xb4b4b4b4b4b4b4b5, 0xb5b5b5b5b5b5b5b6};
static const char* RN[7] = {"rsp", "rbx", "rbp", "r12", "r13", "r14", "r15"};
__attribute__((noinline)) static void poison_simd(u64 seed) {
    u64 t[4] = {seed * 0x9e3779b97f4a7c15, ~seed, seed ^ 0x5555555555555555, seed + 77};
    asm volatile("vmovdqu (%0),%%ymm0\n vmovdqu (%0),%%ymm1\n vmovdqu (%0),%%ymm2\n vmovdqu (%0),%%ymm3\n vmovdqu (%0),%%ymm4\n vmovdqu (%0),%%ymm5\n vmovdqu (%0),%%ymm6\n vmovdqu (%0),%%ymm7\n"
                 "vmovdqu (%0),%%ymm8\n vmovdqu (%0),%%ymm9\n vmovdqu (%0),%%ymm10\n vmovdqu (%0),%%ymm11\n vmovdqu (%0),%%ymm12\n vmovdqu (%0),%%ymm13\n vmovdqu (%0),%%ymm14\n vmovdqu (%0),%%ymm15\n"
                 :: "r"(t) : "memory", "xmm0","xmm1","xmm2","xmm3","xmm4","xmm5","xmm6","xmm7","xmm8","xmm9","xmm10","xmm11","xmm12","xmm13","xmm14","xmm15");
}

// ---- state for reporting
static char cur[600]; static const char* g_backend; static volatile int phase; static long cases = 0; static long checks = 0;
static u8 *g_in, *g_out; static size_t g_n; static char* stkbase; static const size_t STK = 1 << 18; static void* g_fault;
static void bad(const char* cls, const char* msg) {
    printf("BAD {\"class\": \"%s\", \"backend\": \"%s\", \"what\": \"%s\", \"case\": {%s}}\n", cls, g_backend, msg, cur);
    fflush(stdout); _exit(1);
}
static void onsig(int s, siginfo_t* si, void*) {
    char m[300]; const char* where = "";
    u8* a = (u8*)si->si_addr;
    if (s == SIGALRM) bad("termination", "the routine did not return within 20 seconds");
    if (s == SIGILL) bad("signal", "illegal instruction");
    if (g_in && a >= g_in - 65536 && a < g_in + 64*g_n + 65536) where = " (around the input buffer)";
    if (g_out && a >= g_out - 65536 && a < g_out + 32*g_n + 65536) where = " (around the output buffer)";
    if ((char*)a >= stkbase - 65536 && (char*)a < stkbase + STK + 65536) where = " (around the stack)";
    long off = g_in ? a - g_in : 0, offo = g_out ? a - g_out : 0;
    snprintf(m, sizeof m, "signal %d at address %p%s; input%+ld output%+ld", s, (void*)a, where, off, offo);
    bad("memory", m);
}

static u64 rs; static u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }

struct Guarded {   // pages with guard pages at both ends
    u8* base; size_t len;
    Guarded(size_t bytes) { len = (bytes + 64 + 4095) / 4096 * 4096; base = (u8*)mmap(0, len + 131072, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + 65536; mprotect(base, len, PROT_READ | PROT_WRITE); }
    ~Guarded() { munmap(base - 65536, len + 131072); }
};

static void run_case(fn_t f, size_t n, int place, unsigned off, int fill, u64 seed, bool one, bool abi, bool digest, bool usetramp) {
    rs = seed * 0x2545F4914F6CDD1Dull + 88172645463325252ull; if (!rs) rs = 1; for (int i = 0; i < 8; i++) rnd();
    snprintf(cur, sizeof cur, "\"blocks\": %zu, \"placement\": \"%s\", \"misalignment\": %u, \"fill\": %d, \"seed\": %llu", n, place == 0 ? "buffers start after an inaccessible page" : place == 1 ? "buffers end at an inaccessible page" : "between sentinels", off, fill, (unsigned long long)seed);
    Guarded I(64 * n), O(32 * n);
    u8 *in, *out;
    if (place == 1) { in = I.base + I.len - 64 * n; out = O.base + O.len - 32 * n; if (off) { in -= off; out -= off; } }
    else { in = I.base + off; out = O.base + off; }
    memset(I.base, 0xee, I.len); memset(O.base, 0xcd, O.len);
    for (size_t i = 0; i < 64 * n; i++) in[i] = fill == 0 ? rnd() : fill == 1 ? 0 : fill == 2 ? 0xff : fill == 3 ? (i & 1 ? 0x80 : 0x7f) : (rnd() & 7 ? 0 : rnd());
    std::vector<u8> copy(I.base, I.base + I.len);
    mprotect(I.base, I.len, PROT_READ);
    g_in = in; g_out = out; g_n = n;
    char* sp = stkbase + STK - 4096; 
    for (char* p = stkbase; p < stkbase + STK; p++) *p = (char)(seed * 31 + 7);   // dirty stack
    u64 above[8]; for (int i = 0; i < 8; i++) ((u64*)sp)[i] = above[i] = rnd();
    poison_simd(rnd());
    alarm(20);
    if (usetramp) tramp(f, out, in, n, sp); else f(out, in, n);
    alarm(0);
    cases++;
    if (abi && usetramp) {
        if (tramp_after[0] != (u64)sp) { char m[100]; snprintf(m, sizeof m, "stack pointer changed by %lld", (long long)(tramp_after[0] - (u64)sp)); bad("abi", m); }
        for (int i = 1; i < 7; i++) if (tramp_after[i] != SENT[i]) { char m[100]; snprintf(m, sizeof m, "callee-saved register %s not restored", RN[i]); bad("abi", m); }
        if (tramp_after[7] & 0x400) bad("abi", "direction flag set on return");
        if (memcmp(sp, above, sizeof above)) bad("memory", "the caller's stack frame was overwritten");
        checks++;
    }
    if (abi) {
        for (u8* p = O.base; p < O.base + O.len; p++)
            if ((p < out || p >= out + 32 * n) && *p != 0xcd) { char m[100]; snprintf(m, sizeof m, "byte %ld relative to the output buffer of %zu bytes was overwritten", (long)(p - out), 32 * n); bad("memory", m); }
        if (memcmp(copy.data(), I.base, I.len)) bad("memory", "input modified");
        checks++;
    }
    if (digest) for (size_t b = 0; b < n; b++) {
        u8 w[32]; ref64(w, in + 64 * b);
        checks++;
        if (memcmp(w, out + 32 * b, 32)) {
            char m[400], *q = m; q += sprintf(q, "digest of block %zu is ", b);
            for (int i = 0; i < 32; i++) q += sprintf(q, "%02x", out[32*b+i]);
            q += sprintf(q, ", SHA-256 is "); for (int i = 0; i < 32; i++) q += sprintf(q, "%02x", w[i]);
            q += sprintf(q, ", block data "); 
            char c2[600]; snprintf(c2, sizeof c2, "%s", cur); char hx[130]; for (int i = 0; i < 64; i++) sprintf(hx + 2*i, "%02x", in[64*b+i]);
            snprintf(cur, sizeof cur, "%s, \"block_hex\": \"%s\"", c2, hx);
            q[-13] = 0; bad("digest", m);
        }
    }
    g_in = g_out = 0; g_n = 0;
}

int main(int argc, char** argv) {
    g_backend = argv[1]; std::string b = argv[1], mode = argv[2]; u64 seed = strtoull(argv[3], 0, 0); int rounds = atoi(argv[4]);
    bool one = false; fn_t f;
    if (b == "sse") f = b_sse; else if (b == "avx") f = sha256_4_avx; else if (b == "avx2") f = sha256_8_avx2; else if (b == "sha") f = sha256_shani; else { f = b_one; one = true; }
    stkbase = (char*)mmap(0, STK + 131072, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + 65536; mprotect(stkbase, STK, PROT_READ | PROT_WRITE);
    stack_t ss{}; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; sigaltstack(&ss, 0);
    struct sigaction sa{}; sa.sa_sigaction = onsig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGALRM, SIGFPE, SIGTRAP}) sigaction(s, &sa, 0);
    // pull the reference from a second source at least once
    { u8 z[64] = {0}, d[32]; ref64(d, z); static const u8 W[4] = {0xf5, 0xa5, 0xfd, 0x42}; if (memcmp(d, W, 4)) { puts("reference broken"); return 2; } }
    bool abi = mode == "abi", dig = mode == "digest";
    bool tr = true;
    if (mode == "large") {
        // block counts at and above 2^32: the counter must not be truncated. The address space is real, the memory is one 16 MB file mapped repeatedly.
        const size_t F = 16u << 20; int fd = memfd_create("z", 0); if (fd < 0 || ftruncate(fd, F)) { puts("OK cases=0 skipped"); return 0; }
        int fo = memfd_create("o", 0); if (ftruncate(fo, F)) { puts("OK cases=0 skipped"); return 0; }
        struct N { size_t n; } NS[] = {{(1ull << 32) + 1}, {(1ull << 32) + 4}, {(1ull << 32)}, {(1ull << 31) + 3}, {(1ull<<28)+1}};
        size_t maxin = 64 * ((1ull << 32) + 8), maxout = 32 * ((1ull << 32) + 8);
        u8* in = (u8*)mmap(0, maxin + F, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        u8* out = (u8*)mmap(0, maxout + F, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (in == MAP_FAILED || out == MAP_FAILED) { puts("OK cases=0 skipped"); return 0; }
        for (size_t o = 0; o < maxin; o += F) if (mmap(in + o, F, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { puts("OK cases=0 skipped"); return 0; }
        for (size_t o = 0; o < maxout; o += F) if (mmap(out + o, F, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fo, 0) == MAP_FAILED) { puts("OK cases=0 skipped"); return 0; }
        for (auto& k : NS) {
            snprintf(cur, sizeof cur, "\"blocks\": %zu, \"note\": \"all-zero input\"", k.n);
            g_in = in; g_out = out; g_n = k.n;
            // only the first 16 MB of output are distinguishable, so clear them and see how far a bounded run gets
            memset(out, 0, F);
            fflush(stdout);
            pid_t p = fork();
            if (!p) { f(out, in, k.n); _exit(42); }
            int st = 0; bool done = false;
            for (int t = 0; t < 30; t++) { usleep(50000); if (waitpid(p, &st, WNOHANG) == p) { done = true; break; } }
            if (!done) { kill(p, SIGKILL); waitpid(p, &st, 0); }
            cases++;
            u8 w[32]; u8 z[64] = {0}; ref64(w, z);
            if (done && WIFEXITED(st) && WEXITSTATUS(st) == 1) { _exit(1); }
            if (done && k.n > (1u << 30)) { bad("digest", "returned after about a second at most, before 2^31 or more blocks can have been hashed"); }
            size_t lim = done ? F / 32 : 1000;
            for (size_t i = 0; i < lim; i++) if (memcmp(out + 32 * i, w, 32)) { char m[100]; snprintf(m, sizeof m, "digest of block %zu not written", i); bad("digest", m); }
        }
        printf("OK cases=%ld checks=%ld\n", cases, cases); return 0;
    }
    std::vector<size_t> ns; for (size_t i = 0; i <= 36; i++) ns.push_back(i); for (size_t x : {40, 47, 63, 64, 65, 127, 257}) ns.push_back(x);
    if (one) ns = {1};
    for (int r = 0; r < rounds; r++) for (size_t n : ns) {
        if (abi) {
            for (unsigned off : {0u, 1u, 4u, 8u, 16u, 31u, 33u, 48u}) for (int pl = 0; pl < 2; pl++) run_case(f, n, pl, off, 0, seed + r * 1000 + n, one, true, false, tr);
        } else {
            for (int fill = 0; fill < 5; fill++) run_case(f, n, (r + fill) & 1, fill == 0 ? 0 : (rnd() & 15), fill, seed + r * 1000 + n + fill * 100000, one, false, dig, tr);
        }
        if (one && r == 0) for (int q = 0; q < 200; q++) run_case(f, 1, q & 1, q % 17, q % 5, seed + q, one, abi, dig, tr);
    }
    printf("OK cases=%ld checks=%ld\n", cases, checks);
    return 0;
}
