// C14, C15, C16: vectors and lists over opaque elements.
#include "vir.hpp"
#include "helpers/bytes_to_int.hpp"
#include "common/bytes.hpp"
#include "common/containers.hpp"
using namespace eth;
typedef std::vector<uint8_t> V;
// An element: an arbitrary type whose encoding has K bytes (K = 0: variable size). Its members are replaced by their contracts.
template <std::size_t K> struct EL final : ssz::Container {
    uint64_t id;
    static constexpr std::size_t ssz_size = K;
    std::size_t get_ssz_size() const override { return K; }
    V serialize() const override { return {}; }
    bool deserialize(ssz::SSZIterator, ssz::SSZIterator) override { return false; }
    std::vector<ssz::Chunk> hash_tree() const override { return {}; }
    YAML::Node encode() const override { return {}; }
    bool decode(const YAML::Node&) override { return false; }
    bool operator==(const EL& o) const { return id == o.id; }
};
template <std::size_t K, std::size_t N> using VEC = VectorFixedSizedParts<EL<K>, N>;
template <std::size_t K> using LST = ListFixedSizedParts<EL<K>>;
typedef ListVariableSizedParts<EL<0>> VLST;
#define VSPECS(K, N) \
SPEC anchor_##K##_##N() { auto* p = new VEC<K, N>(); delete p; } \
SPEC spec_vec_enc_##K##_##N() { const auto& x = *(const VEC<K, N>*)vir_hookr("vector", 0, N); V r = x.serialize(); vir_hook1("bytes", &r); \
    ASSERT((VEC<K, N>::ssz_size) == K * N && x.get_ssz_size() == K * N, "VectorFixedSizedParts::ssz_size/ensures-elements-times-size"); } \
SPEC spec_vec_dec_##K##_##N() { auto& x = *(VEC<K, N>*)vir_hookr("vector", 0, N); Raw<V> in; vir_hook1("input", &*in); bool r = x.deserialize(in->cbegin(), in->cend()); vir_hook2("vecdec", &x, r); } \
SPEC spec_vec_tree_##K##_##N() { const auto& x = *(const VEC<K, N>*)vir_hookr("vector", 0, N); std::vector<ssz::Chunk> r = x.hash_tree(); vir_hook2("vectree", &r, N); }
#define LSPECS(K) \
SPEC spec_lst_enc_##K() { LST<K> x; vir_hook1("elements", &x.m_arr); const auto& c = x; V r = c.serialize(); vir_hook1("bytes", &r); ASSERT(c.get_ssz_size() == 0, "ListFixedSizedParts::get_ssz_size/ensures-variable"); } \
SPEC spec_lst_dec_##K() { LST<K> x(vir_u64("limit")); vir_hook1("elements", &x.m_arr); Raw<V> in; vir_hook1("input", &*in); bool r = x.deserialize(in->cbegin(), in->cend()); vir_hook2("lstdec", &x.m_arr, r); \
    ASSERT(x.limit_ == vir_u64("limit"), "ListFixedSizedParts::deserialize/assigns-no-limit"); } \
SPEC spec_lst_tree_##K() { LST<K> x(vir_u64("limit")); vir_hook1("elements", &x.m_arr); const auto& c = x; std::vector<ssz::Chunk> r = c.hash_tree(); vir_hook2("lsttree", &r, vir_u64("limit")); }
VSPECS(32, 1) VSPECS(32, 2) VSPECS(32, 33) VSPECS(32, 64) VSPECS(32, 8192) VSPECS(32, 65536) VSPECS(8, 64) VSPECS(8, 8192) VSPECS(40, 5) VSPECS(1, 3)
LSPECS(1) LSPECS(8) LSPECS(32) LSPECS(72) LSPECS(112) LSPECS(121) LSPECS(416) LSPECS(1240)
SPEC spec_var_enc() { VLST x; vir_hook1("elements", &x.m_arr); const auto& c = x; V r = c.serialize(); vir_hook1("varbytes", &r); ASSERT(c.get_ssz_size() == 0, "ListVariableSizedParts::get_ssz_size/ensures-variable"); }
SPEC spec_var_dec() { VLST x(vir_u64("limit")); vir_hook1("elements", &x.m_arr); Raw<V> in; vir_hook1("varinput", &*in); bool r = x.deserialize(in->cbegin(), in->cend()); vir_hook2("vardec", &x.m_arr, r); }
SPEC spec_var_tree() { VLST x(vir_u64("limit")); vir_hook1("elements", &x.m_arr); const auto& c = x; std::vector<ssz::Chunk> r = c.hash_tree(); vir_hook2("lsttree", &r, vir_u64("limit")); }
// integer elements: packed
SPEC spec_ints_lst_tree() { ListFixedSizedParts<Slot> x(vir_u64("limit")); vir_hook1("slots", &x.m_arr); const auto& c = x; std::vector<ssz::Chunk> r = c.hash_tree(); vir_hook2("packedlist", &r, vir_u64("limit")); }
SPEC anchor_ints() { auto* p = new VectorFixedSizedParts<Slot, 64>(); delete p; }
SPEC spec_ints_vec_tree() { const auto& x = *(const VectorFixedSizedParts<Slot, 64>*)vir_hookr("vector", 0, 64); std::vector<ssz::Chunk> r = x.hash_tree(); vir_hook2("packedvec", &r, uint64_t(&x)); }
// equality: elements are equal exactly when their values are
#define VEQ(K, N) SPEC spec_vec_eq_##K##_##N() { const auto& x = *(const VEC<K, N>*)vir_hookr("vector2a", nullptr, N); const auto& y = *(const VEC<K, N>*)vir_hookr("vector2b", nullptr, N); vir_hook2("eq", "VectorFixedSizedParts", x == y); }
#define LEQ(T, n) SPEC spec_##n##_eq() { T x(vir_u64("limit")), y(vir_bool("same-limit") ? x.limit_ : vir_u64("limit2")); vir_hook2("elements2", &x.m_arr, 0); vir_hook2("elements2", &y.m_arr, 1); const T &a = x, &b = y; vir_hook2("eq", #T, a == b); }
VEQ(32, 1) VEQ(32, 2) VEQ(32, 33) VEQ(32, 64) VEQ(32, 8192) VEQ(8, 8192) VEQ(40, 5)
LEQ(LST<8>, lst8) LEQ(LST<32>, lst32) LEQ(LST<121>, lst121) LEQ(VLST, vlst)
