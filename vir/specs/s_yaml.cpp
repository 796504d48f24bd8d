// C21: text of integers, booleans, vectors and lists, over the contracts of yaml-cpp's own conversions.
#include "vir.hpp"
#include "helpers/bytes_to_int.hpp"
#include "common/bytes.hpp"
#include "common/boolean.hpp"
#include "common/slot.hpp"
#include "common/containers.hpp"
using namespace eth;
template <std::size_t K> struct EL final : ssz::Container {
    uint64_t id;
    static constexpr std::size_t ssz_size = K;
    std::size_t get_ssz_size() const override { return K; }
    std::vector<uint8_t> serialize() const override { return {}; }
    bool deserialize(ssz::SSZIterator, ssz::SSZIterator) override { return false; }
    std::vector<ssz::Chunk> hash_tree() const override { return {}; }
    YAML::Node encode() const override { return {}; }
    bool decode(const YAML::Node&) override { return false; }
    bool operator==(const EL& o) const { return id == o.id; }
};
SPEC spec_slot_node() { Slot x(vir_u64("v")); const Slot& c = x; YAML::Node r = c.encode(); vir_hook2("number", &r, vir_u64("v")); }
SPEC spec_bool_node() { Boolean x(vir_bool("v")); const Boolean& c = x; YAML::Node r = c.encode(); vir_hook2("number", &r, vir_bool("v")); }
SPEC spec_slot_read() { Slot x(vir_u64("old")); Raw<YAML::Node> in; vir_hook1("innode", &*in); bool r = x.decode(*in);
    ASSERT(r == vir_bool("readable"), "decode/ensures-fails-exactly-when-the-node-is-no-such-value"); if (r) ASSERT(x.value_ == vir_u64("node.value"), "decode/ensures-value-of-the-node"); }
SPEC spec_bool_read() { Boolean x(vir_bool("old")); Raw<YAML::Node> in; vir_hook1("innode", &*in); bool r = x.decode(*in);
    ASSERT(r == vir_bool("readable"), "decode/ensures-fails-exactly-when-the-node-is-no-such-value"); if (r) ASSERT(x.value_ == vir_bool("node.flag"), "decode/ensures-value-of-the-node"); }
template <class T> void seq_node() { T x; const T& c = x; YAML::Node r = c.encode(); vir_hook2("seqnode", &r, (uint64_t)&x.m_arr); }
template <class T> void seq_read(T& x) { Raw<YAML::Node> in; vir_hook1("innode", &*in); bool r = x.decode(*in); vir_hook1("seqread", &x.m_arr);
    ASSERT(r == vir_bool("readable"), "decode/ensures-fails-exactly-when-the-node-is-no-such-sequence"); }
typedef VectorFixedSizedParts<EL<40>, 5> VEC;
typedef ListFixedSizedParts<EL<40>> LST;
typedef ListVariableSizedParts<EL<0>> VLST;
SPEC spec_vec_node() { seq_node<VEC>(); }
SPEC spec_lst_node() { seq_node<LST>(); }
SPEC spec_var_node() { seq_node<VLST>(); }
SPEC spec_vec_read() { VEC x; seq_read(x); }
SPEC spec_lst_read() { LST x(vir_u64("limit")); seq_read(x); ASSERT(x.limit_ == vir_u64("limit"), "decode/assigns-no-limit"); }
SPEC spec_var_read() { VLST x(vir_u64("limit")); seq_read(x); ASSERT(x.limit_ == vir_u64("limit"), "decode/assigns-no-limit"); }
// the conversion that yaml-cpp calls for every element and field
SPEC spec_conv_node() { EL<40> e; YAML::Node r = YAML::convert<EL<40>>::encode(e); vir_hook2("convnode", &r, (uint64_t)&e); }
SPEC spec_conv_read() { EL<40> e; Raw<YAML::Node> in; vir_hook1("innode", &*in); bool r = YAML::convert<EL<40>>::decode(*in, e); vir_hook1("convread", &e);
    ASSERT(r == vir_bool("readable"), "convert/ensures-result-of-the-element"); }
