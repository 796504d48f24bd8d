// Specification intrinsics, interpreted by the verifier (vir/models.py).
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
extern "C" {
void vir_assert(bool, const char*);                 // obligation
void vir_assume(bool);                              // precondition of the contract under proof
void vir_cover(const char*);                        // this point must be reachable
uint64_t vir_u64(const char*);
uint32_t vir_u32(const char*);
uint8_t vir_u8(const char*);
bool vir_bool(const char*);
void vir_havoc(void*, uint64_t, const char*);       // arbitrary bytes
void vir_bytes(std::vector<uint8_t>*, const char*); // into a raw (unconstructed) vector: arbitrary content of arbitrary length
void vir_string(std::string*, const char*);
uint64_t vir_lt(uint64_t bound, const char*);       // arbitrary value below a constant bound (skolem constant)
uint64_t vir_f64(const char*, uint64_t, uint64_t);  // uninterpreted functions
uint8_t vir_f8(const char*, uint64_t, uint64_t);
bool vir_fb(const char*, uint64_t, uint64_t);
uint64_t vir_ghost(const char*);                    // ghost value left behind by a contract
void vir_hook(const char*);                         // python hook of the specification
void vir_hook1(const char*, const void*);
void vir_hook2(const char*, const void*, uint64_t);
uint64_t vir_hookr(const char*, const void*, uint64_t);
}
#define SPEC extern "C" __attribute__((used)) void
#define ASSERT(c, n) vir_assert((c), n)
template <class T> struct Raw { alignas(T) unsigned char b[sizeof(T)]; T& operator*() { return *reinterpret_cast<T*>(b); } T* operator->() { return reinterpret_cast<T*>(b); } };
