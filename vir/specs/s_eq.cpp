// C22: equality of the basic types and bit fields.
#include "vir.hpp"
#include "common/bytes.hpp"
#include "common/slot.hpp"
#include "common/boolean.hpp"
#include "common/bitvector.hpp"
#include "common/bitlist.cpp"
using namespace eth;
typedef std::vector<uint8_t> V;

SPEC spec_slot() {
    Slot a(vir_u64("a")), b(vir_u64("b")); const Slot &x = a, &y = b;
    ASSERT((x == y) == (vir_u64("a") == vir_u64("b")), "Slot::operator==/ensures-equal-exactly-when-the-values-are");
    ASSERT(x == x && !(x != x), "Slot::operator==/ensures-reflexive");
    ASSERT((x != y) == (vir_u64("a") != vir_u64("b")), "Slot::operator!=/ensures-negation");
}
SPEC spec_boolean() {
    Boolean a(vir_bool("a")), b(vir_bool("b")); const Boolean &x = a, &y = b;
    ASSERT((x == y) == (vir_bool("a") == vir_bool("b")), "Boolean::operator==/ensures-equal-exactly-when-the-values-are");
}
template <size_t N> void bytes() {
    Bytes<N> a, b; vir_havoc(a.m_arr.data(), N, "a"); vir_havoc(b.m_arr.data(), N, "b"); const Bytes<N> &x = a, &y = b;
    uint8_t d = 0; for (size_t i = 0; i < N; ++i) d |= x.m_arr[i] ^ y.m_arr[i];
    ASSERT((x == y) == (d == 0), "Bytes::operator==/ensures-equal-exactly-when-all-bytes-are");
    Raw<V> v; vir_bytes(&*v, "v"); bool r = x == *v;
    bool same = v->size() == N;
    if (same) { uint8_t e = 0; for (size_t i = 0; i < N; ++i) e |= x.m_arr[i] ^ (*v)[i]; same = e == 0; }
    ASSERT(r == same, "Bytes::operator==(bytes)/ensures-equal-exactly-when-length-and-bytes-are");
}
template <size_t N, size_t M> void sizes() {
    Bytes<N> a; Bytes<M> b; vir_havoc(a.m_arr.data(), N, "a"); vir_havoc(b.m_arr.data(), M, "b");
    ASSERT(!(std::as_const(a) == std::as_const(b)), "Bytes::operator==/ensures-different-sizes-differ");
}
SPEC spec_sizes() { static_assert(!std::is_same_v<Bytes<4>, Bytes<8>>); }
#define B(n) SPEC spec_bytes_##n() { bytes<n>(); }
B(1) B(3) B(4) B(8) B(20) B(32) B(48) B(96)
template <unsigned N> void bitv() {
    Bitvector<N> a, b; for (unsigned i = 0; i < N; ++i) a.m_arr[i] = vir_fb("a", i, 0); for (unsigned i = 0; i < N; ++i) b.m_arr[i] = vir_fb("b", i, 0);
    const Bitvector<N> &x = a, &y = b;
    bool same = true; for (unsigned i = 0; i < N; ++i) same &= vir_fb("a", i, 0) == vir_fb("b", i, 0);
    ASSERT((x == y) == same, "Bitvector::operator==/ensures-equal-exactly-when-all-bits-are");
}
#define BV(n) SPEC spec_bitv_##n() { bitv<n>(); }
BV(1) BV(4) BV(7) BV(8) BV(9) BV(16) BV(21) BV(33)
SPEC spec_bitl() {
    Bitlist a(vir_u64("limit")), b(vir_bool("same-limit") ? a.limit_ : vir_u64("limit2"));
    vir_hook1("a", &a.m_arr); vir_hook1("b", &b.m_arr); vir_hook("term"); const Bitlist &x = a, &y = b;
    vir_hook2("listeq", "Bitlist", x == y);
}
