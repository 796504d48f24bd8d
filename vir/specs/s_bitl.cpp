#include "vir.hpp"
#include "common/bytes.hpp"
#include "common/bitlist.cpp"
using namespace eth;
typedef std::vector<uint8_t> V;

SPEC spec_enc() {
    Bitlist b(vir_u64("limit")); vir_hook1("bits", &b.m_arr); const Bitlist& c = b;
    uint64_t n = vir_u64("n"), q = vir_u64("q"); unsigned j = unsigned(vir_lt(8, "j"));
    V r = c.serialize();
    ASSERT(r.size() == n / 8 + 1, "Bitlist::serialize/ensures-floor(n/8)+1-bytes");
    vir_assume(q < n / 8 + 1);
    uint64_t p = 8 * q + j;
    ASSERT((r[q] >> j & 1) == (p < n ? vir_fb("bit", p, 0) : p == n), "Bitlist::serialize/ensures-bits-then-delimiter-then-zeros");
    ASSERT(c.size() == n && c.m_arr.size() == n && (p >= n || c.m_arr[p] == vir_fb("bit", p, 0)), "Bitlist::serialize/assigns-nothing");
}
static bool good(const V& in, uint64_t limit, uint64_t& bits) {
    if (in.size() == 0) return false;
    uint8_t l = in[in.size() - 1];
    if (l == 0) return false;
    int top = 7; while (!(l >> top)) --top;
    bits = 8 * (in.size() - 1) + top;
    return limit == 0 || bits <= limit;
}
SPEC spec_dec() {
    Raw<V> in; vir_bytes(&*in, "in");
    Bitlist b(vir_u64("limit")); vir_hook1("old", &b.m_arr);
    uint64_t bits = 0; bool want = good(*in, vir_u64("limit"), bits);
    bool ok = b.deserialize(in->cbegin(), in->cend());
    ASSERT(ok == want, "Bitlist::deserialize/ensures-accepts-exactly-nonempty-with-delimiter-within-limit");
    if (ok && want) {
        ASSERT(b.size() == bits, "Bitlist::deserialize/ensures-length-is-delimiter-position");
        uint64_t q = vir_u64("q"); unsigned j = unsigned(vir_lt(8, "j"));
        vir_assume(q < in->size() && 8 * q + j < bits);
        ASSERT(b.m_arr[8 * q + j] == ((*in)[q] >> j & 1), "Bitlist::deserialize/ensures-bits-in-order");
        ASSERT(b.limit_ == vir_u64("limit"), "Bitlist::deserialize/assigns-only-the-bits");
    }
}
SPEC spec_tree() {
    Bitlist b(vir_u64("limit")); vir_hook1("bits", &b.m_arr); const Bitlist& c = b; const ssz::Container& g = c;
    std::vector<ssz::Chunk> r = g.hash_tree(); vir_hook2("bittree", &r, vir_u64("limit"));
    ASSERT(b.limit_ == vir_u64("limit") && b.size() == vir_u64("n"), "Bitlist::hash_tree/assigns-nothing");
}
