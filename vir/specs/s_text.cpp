// C20: hexadecimal text of byte arrays and bit fields.
#include "vir.hpp"
#include "common/bytes.hpp"
#include "common/bitvector.hpp"
#include "common/bitlist.cpp"
using namespace eth;
typedef std::vector<uint8_t> V;
static char digit(unsigned v) { return char('0' + v + 39 * unsigned(v > 9)); }
static bool ishex(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int value(unsigned char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

SPEC spec_digit() {
    for (unsigned c = 0; c < 256; ++c) {
        int h = helpers::hextoint(char(c));
        if (ishex((unsigned char)c)) ASSERT(h == value((unsigned char)c), "hextoint/ensures-value-of-the-digit");
        ASSERT(h >= 0 && h <= 15, "hextoint/ensures-below-16");
    }
    for (unsigned v = 0; v < 16; ++v) ASSERT(helpers::hextoint(digit(v)) == int(v), "hextoint/ensures-inverse-of-the-printed-digit");
}
// --- byte arrays
template <size_t N> void to_text() {
    Bytes<N> b; vir_havoc(b.m_arr.data(), N, "v"); const Bytes<N>& c = b;
    std::string s = c.to_string();
    ASSERT(s.size() == 2 + 2 * N && s[0] == '0' && s[1] == 'x', "Bytes::to_string/ensures-prefix-and-two-digits-per-byte");
    for (size_t i = 0; i < N; ++i) {
        ASSERT(s[2 + 2 * i] == digit(c.m_arr[i] >> 4), "Bytes::to_string/ensures-high-digit");
        ASSERT(s[3 + 2 * i] == digit(c.m_arr[i] & 15), "Bytes::to_string/ensures-low-digit");
    }
}
template <size_t N> void from_text() {
    Raw<std::string> t; vir_string(&*t, "text"); uint64_t n = t->size();
    Bytes<N> b; vir_havoc(b.m_arr.data(), N, "old");
    bool threw = false;
    try { b.from_string(*t); } catch (const std::exception&) { threw = true; }
    bool good = n >= 2 && (*t)[0] == '0' && (*t)[1] == 'x' && n <= 2 * N + 2;
    ASSERT(threw == !good, "Bytes::from_string/ensures-rejects-missing-prefix-and-long-text");
    if (!threw && good && n % 2 == 0)
        for (size_t i = 0; i < N; ++i) {
            uint8_t want = 0;
            if (2 + 2 * i < n) want = uint8_t(16 * helpers::hextoint((*t)[2 + 2 * i]) + helpers::hextoint((*t)[3 + 2 * i]));
            ASSERT(b.m_arr[i] == want, "Bytes::from_string/ensures-bytes-in-order");
        }
}
#define B(n) SPEC spec_to_##n() { to_text<n>(); } SPEC spec_from_##n() { from_text<n>(); }
B(1) B(3) B(4) B(8) B(20) B(32) B(48) B(96)
// --- bit fields
template <unsigned N> void bv_to_text() {
    Bitvector<N> b; for (unsigned i = 0; i < N; ++i) b.m_arr[i] = vir_fb("bit", i, 0);
    const Bitvector<N>& c = b; constexpr unsigned M = (N + 7) / 8;
    std::string s = c.to_string();
    ASSERT(s.size() == 2 + 2 * M && s[0] == '0' && s[1] == 'x', "Bitvector::to_string/ensures-prefix-and-two-digits-per-byte");
    for (unsigned i = 0; i < M; ++i) {
        unsigned v = 0; for (unsigned j = 0; j < 8 && 8 * i + j < N; ++j) v |= unsigned(vir_fb("bit", 8 * i + j, 0)) << j;
        ASSERT(s[2 + 2 * i] == digit(v >> 4) && s[3 + 2 * i] == digit(v & 15), "Bitvector::to_string/ensures-digits-of-the-encoding");
    }
}
template <unsigned N> void bv_from_text() {
    Raw<std::string> t; vir_string(&*t, "text"); uint64_t n = t->size();
    Bitvector<N> b; for (unsigned i = 0; i < N; ++i) b.m_arr[i] = vir_fb("old", i, 0);
    bool threw = false;
    try { b.from_hexstring(*t); } catch (const std::exception&) { threw = true; }
    bool good = n >= 2 && (*t)[0] == '0' && (*t)[1] == 'x' && n % 2 == 0;
    ASSERT(threw == !good, "Bitvector::from_hexstring/ensures-rejects-missing-prefix-and-odd-length");
    if (!threw && good)
        for (unsigned i = 0; i < N; ++i) {
            bool want = false; unsigned p = i / 8;
            if (2 + 2 * p < n) want = (i % 8 < 4 ? helpers::hextoint((*t)[3 + 2 * p]) >> (i % 8) : helpers::hextoint((*t)[2 + 2 * p]) >> (i % 8 - 4)) & 1;
            ASSERT(b.m_arr[i] == want, "Bitvector::from_hexstring/ensures-bits-of-the-digits");
        }
}
#define BV(n) SPEC spec_bv_to_##n() { bv_to_text<n>(); } SPEC spec_bv_from_##n() { bv_from_text<n>(); }
BV(1) BV(4) BV(7) BV(8) BV(9) BV(16) BV(21) BV(33)
SPEC spec_bl_to() {
    Bitlist b(vir_u64("limit")); const Bitlist& c = b;
    std::string s = c.to_string();
    uint64_t n = vir_u64("ser.size"), q = vir_u64("q");
    ASSERT(s.size() == 2 + 2 * n && s[0] == '0' && s[1] == 'x', "Bitlist::to_string/ensures-prefix-and-two-digits-per-byte");
    vir_assume(q < n);
    ASSERT(s[2 + 2 * q] == digit(vir_f8("ser", q, 0) >> 4) && s[3 + 2 * q] == digit(vir_f8("ser", q, 0) & 15), "Bitlist::to_string/ensures-digits-of-the-encoding");
}
SPEC spec_bl_from() {
    Raw<std::string> t; vir_string(&*t, "text"); uint64_t n = t->size();
    Bitlist b(vir_u64("limit")); bool threw = false;
    try { b.from_hexstring(*t); } catch (const std::exception&) { threw = true; }
    bool good = n >= 2 && (*t)[0] == '0' && (*t)[1] == 'x' && n % 2 == 0;
    vir_hook2("blfrom", &*t, uint64_t(good) * 2 + uint64_t(threw));
}
// --- structured text
SPEC spec_bytes_node() { Bytes<8> b; const Bytes<8>& c = b; YAML::Node r = c.encode(); vir_hook1("outnode", &r); }
SPEC spec_bv_node() { Bitvector<4> b; const Bitvector<4>& c = b; YAML::Node r = c.encode(); vir_hook1("outnode", &r); }
SPEC spec_bl_node() { Bitlist b; const Bitlist& c = b; YAML::Node r = c.encode(); vir_hook1("outnode", &r); }
SPEC spec_bytes_read() { Bytes<8> b; Raw<YAML::Node> in; bool r = b.decode(*in); vir_hook2("inread", &b, r); }
SPEC spec_bv_read() { Bitvector<4> b; Raw<YAML::Node> in; bool r = b.decode(*in); vir_hook2("inread", &b, r); }
SPEC spec_bl_read() { Bitlist b; Raw<YAML::Node> in; bool r = b.decode(*in); vir_hook2("inread", &b, r); }
