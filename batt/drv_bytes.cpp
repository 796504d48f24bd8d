#include "drv.hpp"
#include "common/boolean.hpp"
#include "common/bytes.hpp"
#include "common/slot.hpp"
#include "helpers/bytes_to_int.hpp"
using namespace eth;
template <std::size_t N, std::size_t M> void cat() {
    op("cat " + std::to_string(N) + "_" + std::to_string(M), [](const Args& a) -> std::string {
        Bytes<N> x; Bytes<M> y; if (!dec(x, unhex(a[0])) || !dec(y, unhex(a[1]))) return "x";
        const Bytes<N>& c = x; const Bytes<M>& d = y; return hex((c + d).serialize());
    });
}
template <class I> void toint(const char* n) {
    op("toint " + std::string(n), [](const Args& a) -> std::string { Bytes<sizeof(I)> x; if (!dec(x, unhex(a[0]))) return "x"; const auto& c = x; return std::to_string(c.template to_integer_little_endian<I>()); });
}
template <std::size_t N> void bytes() {
    auto n = "bytes" + std::to_string(N);
    using T = Bytes<N>;
    Typ<T>::def(n);
    add_text(n, mk_<T>, [](const ssz::Container& c) { return static_cast<const T&>(c).to_string(); }, [](ssz::Container& c, const std::string& s) { static_cast<T&>(c).from_string(s); });
    op("ctor_txt " + n, [](const Args& a) -> std::string {
        auto b = unhex(a[0]);
        std::string s(b.begin(), b.end());
        std::string_view v(s);
        T x{v};
        return hex(x.serialize());
    });
    op("ctor_int " + n, [](const Args& a) -> std::string {
        if constexpr (N >= 8) { T x{std::uint64_t(std::stoull(a[0]))}; return hex(x.serialize()); }
        else if constexpr (N >= 4) { T x{std::uint32_t(std::stoull(a[0]))}; return hex(x.serialize()); }
        else { T x{std::uint8_t(std::stoull(a[0]))}; return hex(x.serialize()); }
    });
    op("eqv " + n, [](const Args& a) -> std::string {
        T x; if (!dec(x, unhex(a[0]))) return "x";
        const T& c = x; auto b = unhex(a[1]);
        return c == b ? "1" : "0";
    });
    op("xor " + n, [](const Args& a) -> std::string {
        T x, y; if (!dec(x, unhex(a[0])) || !dec(y, unhex(a[1]))) return "x";
        x ^= y; return hex(x.serialize()) + " " + hex(y.serialize());
    });
    op("seq " + n, [](const Args& a) -> std::string {
        T x; if (!dec(x, unhex(a[0]))) return "x";
        const T& c = x; BV i, j, k, l(c.cbegin(), c.cend()), m(x.begin(), x.end()); std::vector<std::uint8_t> v = x;
        for (std::size_t q = 0; q < c.size(); ++q) { i.push_back(c[q]); j.push_back(x[q]); k.push_back(x.data()[q]); }
        BV o(c.to_array().begin(), c.to_array().end()); T w(c.to_array());
        return hex(i) + " " + hex(j) + " " + hex(k) + " " + hex(l) + " " + hex(m) + " " + hex(v) + " " + hex(o) + " " + hex(w.serialize());
    });
}
void reg_bytes() {
    Typ<Slot>::def("u64"); Typ<Boolean>::def("bool");
    bytes<1>(); bytes<2>(); bytes<3>(); bytes<4>(); bytes<8>(); bytes<20>(); bytes<31>(); bytes<32>(); bytes<33>(); bytes<48>(); bytes<64>(); bytes<96>(); bytes<100>();
    cat<4, 28>(); cat<32, 32>(); cat<1, 3>(); cat<48, 48>(); cat<20, 1>(); cat<3, 96>(); cat<31, 33>(); cat<100, 100>();
    toint<std::uint8_t>("1"); toint<std::uint16_t>("2"); toint<std::uint32_t>("4"); toint<std::uint64_t>("8");
    op("hextoint .", [](const Args& a) -> std::string { return std::to_string(helpers::hextoint((char)std::stoi(a[0]))); });
    op("strhex .", [](const Args& a) -> std::string { auto b = unhex(a[0]); std::string s(b.begin(), b.end()); return std::to_string(helpers::strhex2int(s)); });
    op("ints .", [](const Args& a) -> std::string {
        Slot s{std::uint64_t(std::stoull(a[0]))};
        const Slot& c = s; std::uint64_t v = c; std::uint64_t& rv = s; Bytes8 b = c;
        return std::to_string(v) + " " + std::to_string(rv) + " " + hex(b.serialize());
    });
}
