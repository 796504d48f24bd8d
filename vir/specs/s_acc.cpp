// C26: accessors of blocks, block bodies and the state; sizes and iterators of vectors and lists; operations of byte arrays.
#include "vir.hpp"
#include "beacon-chain/attestation.cpp"
#include "beacon-chain/beacon_block.cpp"
#include "beacon-chain/beacon_state.cpp"
#include "beacon-chain/validator.cpp"
#include "beacon-chain/deposits.hpp"
#include "beacon-chain/eth1data.hpp"
using namespace eth;
typedef std::vector<uint8_t> V;
template <class T> T& object(const char* nm) { return *(T*)vir_hookr("object", nm, sizeof(T)); }
// d holds what s held before the call
static void same(const void* d, const void* s, uint64_t n) { const void* p[2] = {d, s}; vir_hook2("same", p, n); }
static void leaf(const Slot& d, const Slot& s) { same(&d.value_, &s.value_, 8); }
static void leaf(const Boolean& d, const Boolean& s) { same(&d.value_, &s.value_, 1); }
template <size_t N> void leaf(const Bytes<N>& d, const Bytes<N>& s) { same(d.m_arr.data(), s.m_arr.data(), N); }
template <class T> void get(const T& r, const T& f, bool ref) {
    if (ref) ASSERT(&r == &f, "accessor/ensures-reads-its-own-field");
    else if constexpr (std::is_same_v<T, Slot>) leaf(r, f);
    else vir_hook("unsupported");
}
#define GET(C, n) SPEC spec_get_##C##_##n() { const C& x = object<C>("obj"); vir_hook1("before", &x); get(x.n(), x.n##_, std::is_lvalue_reference_v<decltype(x.n())>); vir_hook2("frame", &x, 0); }
#define BODY(M) M(BeaconBlockBody, randao_reveal) M(BeaconBlockBody, eth1_data) M(BeaconBlockBody, graffiti) M(BeaconBlockBody, proposer_slashings) M(BeaconBlockBody, attester_slashings) M(BeaconBlockBody, attestations) M(BeaconBlockBody, deposits) M(BeaconBlockBody, voluntary_exits)
#define BLOCK(M) M(BeaconBlock, slot) M(BeaconBlock, proposer_index) M(BeaconBlock, parent_root) M(BeaconBlock, state_root) M(BeaconBlock, body)
#define STATE(M) M(BeaconState, genesis_time) M(BeaconState, genesis_validators_root) M(BeaconState, slot) M(BeaconState, fork) M(BeaconState, latest_block_header) M(BeaconState, block_roots) M(BeaconState, state_roots) \
  M(BeaconState, historical_roots) M(BeaconState, eth1_data) M(BeaconState, eth1_data_votes) M(BeaconState, eth1_deposit_index) M(BeaconState, validators) M(BeaconState, balances) M(BeaconState, slashings) M(BeaconState, randao_mixes) \
  M(BeaconState, previous_epoch_attestations) M(BeaconState, current_epoch_attestations) M(BeaconState, justification_bits) M(BeaconState, previous_justified_checkpoint) M(BeaconState, current_justified_checkpoint) M(BeaconState, finalized_checkpoint)
BODY(GET) BLOCK(GET) STATE(GET)
// --- vectors and lists
struct EL final : ssz::Container {
    uint64_t id;
    static constexpr std::size_t ssz_size = 40;
    std::size_t get_ssz_size() const override { return 40; }
    V serialize() const override { return {}; }
    bool deserialize(ssz::SSZIterator, ssz::SSZIterator) override { return false; }
    std::vector<ssz::Chunk> hash_tree() const override { return {}; }
    YAML::Node encode() const override { return {}; }
    bool decode(const YAML::Node&) override { return false; }
    bool operator==(const EL& o) const { return id == o.id; }
};
SPEC spec_vector() {
    typedef VectorFixedSizedParts<EL, 5> T; T& x = object<T>("obj"); const T& c = x; vir_hook1("before", &x); const EL* p = x.m_arr.data();
    ASSERT(c.size() == 5, "VectorFixedSizedParts::size/ensures-number-of-elements");
    ASSERT(&*x.begin() == p && x.end() - x.begin() == 5 && &*c.cbegin() == p && c.cend() - c.cbegin() == 5, "VectorFixedSizedParts::iterators/ensures-all-elements-in-order");
    vir_hook2("frame", &x, 0);
}
template <class T> void list(const char* nm) {
    T& x = object<T>(nm); const T& c = x; vir_hook1("elements", &x.m_arr); const EL* p = (const EL*)vir_ghost("elements.begin"); uint64_t n = vir_u64("n");
    ASSERT(c.size() == n, "list/size/ensures-number-of-elements");
    if constexpr (requires { x.begin(); }) ASSERT(&*x.begin() == p && uint64_t(x.end() - x.begin()) == n, "list/iterators/ensures-all-elements-in-order");
    if constexpr (requires { c.cbegin(); }) ASSERT(&*c.cbegin() == p && uint64_t(c.cend() - c.cbegin()) == n, "list/iterators/ensures-all-elements-in-order");
    if constexpr (requires { x.data(); }) ASSERT(&x.data() == &x.m_arr, "list/data/ensures-own-elements");
}
SPEC spec_list_fixed() { list<ListFixedSizedParts<EL>>("obj"); }
SPEC spec_list_variable() { list<ListVariableSizedParts<EL>>("obj"); }
// --- byte arrays
template <size_t N> static void arb(Bytes<N>& b, const char* nm) { for (size_t i = 0; i < N; ++i) b.m_arr[i] = vir_f8(nm, i, 0); }
template <size_t N> static bool is(const Bytes<N>& b, size_t i, const char* nm) { return b.m_arr[i] == vir_f8(nm, i, 0); }
template <size_t N> void bytes() {
    Bytes<N> a, b; arb(a, "a"); arb(b, "b"); const Bytes<N>& c = a;
    ASSERT(a.size() == N && Bytes<N>::size() == N, "Bytes::size/ensures-N");
    ASSERT(a.data() == a.m_arr.data() && &c.to_array() == &a.m_arr, "Bytes::data/ensures-own-bytes");
    ASSERT(&*a.begin() == a.m_arr.data() && a.end() - a.begin() == N && &*c.cbegin() == a.m_arr.data() && c.cend() - c.cbegin() == N, "Bytes::iterators/ensures-all-bytes-in-order");
    for (size_t i = 0; i < N; ++i) {
        ASSERT(&a[i] == a.m_arr.data() + i, "Bytes::operator[]/ensures-byte-of-the-index");
        ASSERT(c[i] == vir_f8("a", i, 0), "Bytes::operator[]/ensures-byte-of-the-index");
    }
    V v = a;
    ASSERT(v.size() == N, "Bytes::vector/ensures-N-bytes");
    for (size_t i = 0; i < N; ++i) ASSERT(v[i] == vir_f8("a", i, 0), "Bytes::vector/ensures-bytes-in-order");
    Bytes<N> d(b.m_arr);
    for (size_t i = 0; i < N; ++i) ASSERT(is(d, i, "b"), "Bytes::Bytes(array)/ensures-bytes-in-order");
    Bytes<N> z;
    for (size_t i = 0; i < N; ++i) ASSERT(z.m_arr[i] == 0, "Bytes::Bytes()/ensures-zero");
    a ^= b;
    for (size_t i = 0; i < N; ++i) {
        ASSERT(a.m_arr[i] == (vir_f8("a", i, 0) ^ vir_f8("b", i, 0)), "Bytes::operator^=/ensures-xor-of-the-bytes");
        ASSERT(is(b, i, "b"), "Bytes::operator^=/assigns-only-the-left-operand");
    }
    Bytes<N> y; arb(y, "a"); y ^= y;
    for (size_t i = 0; i < N; ++i) ASSERT(y.m_arr[i] == 0, "Bytes::operator^=/ensures-zero-with-itself");
}
template <size_t N, size_t M> void cat() {
    Bytes<N> a; Bytes<M> b; arb(a, "a"); arb(b, "b"); const Bytes<N>& c = a; const Bytes<M>& d = b;
    Bytes<N + M> r = c + d;
    for (size_t i = 0; i < N; ++i) ASSERT(is(r, i, "a") && is(a, i, "a"), "Bytes::operator+/ensures-left-bytes-first");
    for (size_t i = 0; i < M; ++i) ASSERT(r.m_arr[N + i] == vir_f8("b", i, 0) && is(b, i, "b"), "Bytes::operator+/ensures-right-bytes-last");
}
template <class T> void integer() {
    Bytes<sizeof(T)> a; arb(a, "a"); const Bytes<sizeof(T)>& c = a; T w = 0;
    for (size_t i = 0; i < sizeof(T); ++i) w |= T(T(vir_f8("a", i, 0)) << 8 * i);
    ASSERT(c.template to_integer_little_endian<T>() == w, "Bytes::to_integer_little_endian/ensures-first-byte-is-lowest");
}
#define B(n) SPEC spec_bytes_##n() { bytes<n>(); }
B(1) B(3) B(4) B(8) B(20) B(32) B(48) B(96)
#define K(n, m) SPEC spec_cat_##n##_##m() { cat<n, m>(); }
K(4, 28) K(32, 32) K(1, 3) K(48, 48) K(20, 1) K(3, 96)
SPEC spec_int_1() { integer<uint8_t>(); }
SPEC spec_int_2() { integer<uint16_t>(); }
SPEC spec_int_4() { integer<uint32_t>(); }
SPEC spec_int_8() { integer<uint64_t>(); }
