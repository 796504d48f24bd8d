#include "drv.hpp"
#include "common/boolean.hpp"
#include "common/containers.hpp"
using namespace eth;
template <class T, std::size_t N> void vec(const std::string& n) {
    auto m = n + "_" + std::to_string(N); Typ<VectorFixedSizedParts<T, N>>::def(m); add_seq<VectorFixedSizedParts<T, N>>(m, mk_<VectorFixedSizedParts<T, N>>);
}
void reg_vecs() {
    vec<Slot, 1>("vu64"); vec<Slot, 2>("vu64"); vec<Slot, 3>("vu64"); vec<Slot, 4>("vu64"); vec<Slot, 5>("vu64"); vec<Slot, 8>("vu64"); vec<Slot, 9>("vu64"); vec<Slot, 100>("vu64");
    vec<Root, 1>("vB32"); vec<Root, 2>("vB32"); vec<Root, 3>("vB32"); vec<Root, 5>("vB32"); vec<Root, 33>("vB32");
    vec<Checkpoint, 1>("vCp"); vec<Checkpoint, 2>("vCp"); vec<Checkpoint, 3>("vCp"); vec<Boolean, 3>("vBool"); vec<Bytes<3>, 4>("vB3");
    vec<Root, 4096>("vB32"); vec<Slot, 8193>("vu64"); vec<Bytes<121>, 600>("vB121");
}
