#include "drv.hpp"
#include "common/bitlist.hpp"
#include "common/bitvector.hpp"
using namespace eth;
template <unsigned N> void bitv() {
    auto n = "bitv" + std::to_string(N);
    using T = Bitvector<N>;
    Typ<T>::def(n);
    add_text(n, mk_<T>, [](const ssz::Container& c) { return static_cast<const T&>(c).to_string(); }, [](ssz::Container& c, const std::string& s) { static_cast<T&>(c).from_hexstring(s); });
    op("bits " + n, [](const Args& a) -> std::string { T x; if (!dec(x, unhex(a[0]))) return "x"; std::ostringstream o; o << x; return o.str(); });
}
void reg_bits() {
    bitv<1>(); bitv<2>(); bitv<3>(); bitv<4>(); bitv<5>(); bitv<7>(); bitv<8>(); bitv<9>(); bitv<15>(); bitv<16>(); bitv<17>(); bitv<31>(); bitv<64>(); bitv<255>(); bitv<256>(); bitv<257>(); bitv<512>(); bitv<1000>();
    Typ<Bitlist>::lim("bitl");
    add_text("bitl", mk_<Bitlist>, [](const ssz::Container& c) { return static_cast<const Bitlist&>(c).to_string(); }, [](ssz::Container& c, const std::string& s) { static_cast<Bitlist&>(c).from_hexstring(s); });
    op("bitn bitl", [](const Args& a) -> std::string { Bitlist x; if (!dec(x, unhex(a[0]))) return "x"; return std::to_string(x.size()); });
    op("bits bitl", [](const Args& a) -> std::string { Bitlist x; if (!dec(x, unhex(a[0]))) return "x"; std::ostringstream o; o << x; return "b" + o.str(); });
}
