// C11, C12, C16, C21: the generic container operations of ssz/ssz_container.cpp over opaque fields.
#include "vir.hpp"
#include "ssz/ssz_container.cpp"
typedef std::vector<uint8_t> V;
typedef std::vector<const ssz::Container*> CP;
typedef std::vector<ssz::Container*> P;
SPEC spec_ser() { Raw<CP> p; vir_hook1("parts", &*p); V r = ssz::Container::serialize_(*p); vir_hook1("ser", &r); }
SPEC spec_des() { Raw<P> p; vir_hook1("parts", &*p); Raw<V> in; vir_bytes(&*in, "in"); vir_hook1("range", &*in); bool r = ssz::Container::deserialize_(in->cbegin(), in->cend(), *p); vir_hook2("des", 0, r); }
SPEC spec_ht() { Raw<CP> p; vir_hook1("parts", &*p); std::vector<ssz::Chunk> r = ssz::Container::hash_tree_(*p); vir_hook1("ht", &r); }
SPEC spec_root() { const ssz::Container* p[1]; vir_hook1("array", p); ssz::Chunk c = p[0]->hash_tree_root(); vir_hook1("root", &c); }
SPEC spec_default() { const ssz::Container* p[1]; vir_hook1("array", p); std::vector<ssz::Chunk> r = p[0]->ssz::Container::hash_tree(); vir_hook1("dflt", &r); }
#ifdef GEN
#include "gen.inc"
#endif
