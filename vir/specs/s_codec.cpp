#include "vir.hpp"
#include "common/bytes.hpp"
#include "common/slot.hpp"
#include "common/boolean.hpp"
#include "common/bitvector.hpp"
using namespace eth;
typedef std::vector<uint8_t> V;

// --- integers
SPEC spec_slot_enc() {
    Slot s(vir_u64("v")); const Slot& c = s; uint64_t v = vir_u64("v");
    V r = c.serialize();
    ASSERT(r.size() == 8, "Slot::serialize/ensures-8-bytes");
    uint64_t q = vir_lt(8, "byte");
    ASSERT(r[q] == uint8_t(v >> (8 * q)), "Slot::serialize/ensures-little-endian");
    ASSERT(s.value_ == v, "Slot::serialize/assigns-nothing");
    ASSERT(c.get_ssz_size() == 8 && Slot::ssz_size == 8, "Slot::get_ssz_size/ensures-8");
}
SPEC spec_slot_dec() {
    Raw<V> in; vir_bytes(&*in, "in"); uint64_t n = in->size();
    Slot s(vir_u64("old"));
    bool ok = s.deserialize(in->cbegin(), in->cend());
    ASSERT(ok == (n == 8), "Slot::deserialize/ensures-accepts-exactly-8-bytes");
    if (ok && n == 8) {
        uint64_t v = 0; for (int i = 7; i >= 0; --i) v = v << 8 | (*in)[i];
        ASSERT(s.value_ == v, "Slot::deserialize/ensures-little-endian-value");
    }
}
SPEC spec_slot_hash() {
    Slot s(vir_u64("v")); const Slot& c = s; uint64_t v = vir_u64("v");
    std::vector<ssz::Chunk> t = c.hash_tree(); ssz::Chunk r = c.hash_tree_root();
    ASSERT(t.size() == 1, "Slot::hash_tree/ensures-one-chunk");
    uint64_t q = vir_lt(32, "byte");
    uint8_t want = q < 8 ? uint8_t(v >> (8 * q)) : 0;
    ASSERT(t[0][q] == want && r[q] == want, "Slot::hash_tree/ensures-little-endian-value-padded-with-zeros");
}
SPEC spec_slot_conv() {
    Slot s(vir_u64("v")); const Slot& c = s; uint64_t v = vir_u64("v");
    Bytes8 b = c;
    uint64_t q = vir_lt(8, "byte");
    ASSERT(b[q] == uint8_t(v >> (8 * q)), "Slot::operator-Bytes8/ensures-little-endian");
    ASSERT(uint64_t(c) == v, "Slot::operator-uint64_t/ensures-value");
    ASSERT(b.to_integer_little_endian<uint64_t>() == v, "Bytes::to_integer_little_endian/ensures-inverse");
    uint64_t& w = s; w = vir_u64("w"); ASSERT(s.value_ == vir_u64("w"), "Slot::operator-uint64_t&/ensures-reference");
    uint64_t x = vir_u64("x"); Slot d(x); d = c; ASSERT(d.value_ == vir_u64("w"), "Slot::operator=/ensures-copy");
}

// --- booleans
SPEC spec_bool_enc() {
    Boolean b(vir_bool("v")); const Boolean& c = b;
    V r = c.serialize();
    ASSERT(r.size() == 1, "Boolean::serialize/ensures-one-byte");
    ASSERT(r[0] == (vir_bool("v") ? 1 : 0), "Boolean::serialize/ensures-0-or-1");
    ASSERT(bool(c) == vir_bool("v"), "Boolean::operator-bool/ensures-value");
    ASSERT(c.get_ssz_size() == 1 && Boolean::ssz_size == 1, "Boolean::get_ssz_size/ensures-1");
}
SPEC spec_bool_dec() {
    Raw<V> in; vir_bytes(&*in, "in"); uint64_t n = in->size();
    Boolean b(vir_bool("old"));
    bool ok = b.deserialize(in->cbegin(), in->cend());
    bool good = n == 1 && (*in)[0] <= 1;
    ASSERT(ok == good, "Boolean::deserialize/ensures-accepts-exactly-one-byte-0-or-1");
    if (ok && good) ASSERT(b.value_ == ((*in)[0] == 1), "Boolean::deserialize/ensures-value");
}

// --- byte arrays
template <size_t N> void bytes_enc() {
    Bytes<N> b; vir_havoc(b.m_arr.data(), N, "v"); const Bytes<N>& c = b;
    V r = c.serialize();
    ASSERT(r.size() == N, "Bytes::serialize/ensures-N-bytes");
    for (size_t i = 0; i < N; ++i) ASSERT(r[i] == c.m_arr[i], "Bytes::serialize/ensures-bytes-in-order");
    ASSERT(c.get_ssz_size() == N && Bytes<N>::ssz_size == N && Bytes<N>::size() == N, "Bytes::get_ssz_size/ensures-N");
    V w = V(b);
    ASSERT(w.size() == N, "Bytes::operator-vector/ensures-N-bytes");
    for (size_t i = 0; i < N; ++i) ASSERT(w[i] == c.m_arr[i], "Bytes::operator-vector/ensures-bytes-in-order");
    Bytes<N> z; for (size_t i = 0; i < N; ++i) ASSERT(z.m_arr[i] == 0, "Bytes::Bytes/ensures-zero");
}
template <size_t N> void bytes_dec() {
    Raw<V> in; vir_bytes(&*in, "in"); uint64_t n = in->size();
    Bytes<N> b; vir_havoc(b.m_arr.data(), N, "old");
    bool ok = b.deserialize(in->cbegin(), in->cend());
    ASSERT(ok == (n == N), "Bytes::deserialize/ensures-accepts-exactly-N-bytes");
    if (ok && n == N) { for (size_t i = 0; i < N; ++i) ASSERT(b.m_arr[i] == (*in)[i], "Bytes::deserialize/ensures-bytes-in-order"); }
}
template <size_t N, class T> void bytes_int() {
    T v = T(vir_u64("v"));
    Bytes<N> b(v);
    for (size_t i = 0; i < N; ++i) ASSERT(b.m_arr[i] == (i < sizeof(T) ? uint8_t(uint64_t(v) >> (8 * (i < 8 ? i : 7))) : 0), "Bytes::Bytes(integer)/ensures-little-endian-padded-with-zeros");
}
template <size_t N> void bytes_tree() {
    Bytes<N> b; vir_havoc(b.m_arr.data(), N, "v"); const ssz::Container& c = b;
    std::vector<ssz::Chunk> r = c.hash_tree(); vir_hook2("dtree", &r, uint64_t(&c));
}
#define B(n) SPEC spec_bytes_tree_##n() { bytes_tree<n>(); } SPEC spec_bytes_enc_##n() { bytes_enc<n>(); } SPEC spec_bytes_dec_##n() { bytes_dec<n>(); }
B(1) B(3) B(4) B(8) B(20) B(32) B(48) B(96)
SPEC spec_bytes_int() { bytes_int<1, uint8_t>(); bytes_int<4, uint32_t>(); bytes_int<8, uint64_t>(); bytes_int<8, uint32_t>(); bytes_int<32, uint64_t>(); bytes_int<20, uint16_t>(); bytes_int<1, bool>(); }

// --- bit vectors
template <unsigned N> void bitv_enc() {
    Bitvector<N> b; for (unsigned i = 0; i < N; ++i) ASSERT(!b.m_arr[i], "Bitvector::Bitvector/ensures-zero");
    for (unsigned i = 0; i < N; ++i) b.m_arr[i] = vir_fb("bit", i, 0);
    const Bitvector<N>& c = b;
    V r = c.serialize();
    ASSERT(r.size() == (N + 7) / 8, "Bitvector::serialize/ensures-ceil(N/8)-bytes");
    for (unsigned i = 0; i < (N + 7) / 8 * 8; ++i)
        ASSERT((r[i / 8] >> (i % 8) & 1) == (i < N ? vir_fb("bit", i, 0) : false), "Bitvector::serialize/ensures-bit-i-at-bit-i%8-of-byte-i/8-and-zeros-above");
    ASSERT(c.get_ssz_size() == (N + 7) / 8, "Bitvector::get_ssz_size/ensures-ceil(N/8)");
}
template <unsigned N> void bitv_dec() {
    Raw<V> in; vir_bytes(&*in, "in"); uint64_t n = in->size();
    Bitvector<N> b; for (unsigned i = 0; i < N; ++i) b.m_arr[i] = vir_fb("old", i, 0);
    bool ok = b.deserialize(in->cbegin(), in->cend());
    bool good = n == (N + 7) / 8 && (N % 8 == 0 || ((*in)[N / 8] >> (N % 8)) == 0);
    ASSERT(ok == good, "Bitvector::deserialize/ensures-accepts-exactly-ceil(N/8)-bytes-without-unused-bits");
    if (ok && good) for (unsigned i = 0; i < N; ++i) ASSERT(b.m_arr[i] == ((*in)[i / 8] >> (i % 8) & 1), "Bitvector::deserialize/ensures-bits-in-order");
}
template <unsigned N> void bitv_tree() {
    Bitvector<N> b; for (unsigned i = 0; i < N; ++i) b.m_arr[i] = vir_fb("bit", i, 0);
    const ssz::Container& c = b; std::vector<ssz::Chunk> r = c.hash_tree(); vir_hook2("dtree", &r, uint64_t(&c));
}
#define BV(n) SPEC spec_bitv_tree_##n() { bitv_tree<n>(); } SPEC spec_bitv_enc_##n() { bitv_enc<n>(); } SPEC spec_bitv_dec_##n() { bitv_dec<n>(); }
BV(1) BV(2) BV(3) BV(4) BV(5) BV(6) BV(7) BV(8) BV(9) BV(10) BV(11) BV(12) BV(13) BV(14) BV(15) BV(16) BV(17) BV(18) BV(19) BV(20) BV(21) BV(22) BV(23) BV(24) BV(25) BV(26) BV(27) BV(28) BV(29) BV(30) BV(31) BV(32) BV(33) BV(34) BV(35) BV(36) BV(37) BV(38) BV(39) BV(40) BV(63) BV(64) BV(65) BV(100) BV(127) BV(128) BV(129)
