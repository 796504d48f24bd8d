#include "vir.hpp"
#include "common/bytes.hpp"
#include "beacon-chain/attestation.cpp"
using namespace eth;
static void arb(Root& r, const char* n) { vir_havoc(r.m_arr.data(), 32, n); }
static bool diff(const Root& a, const Root& b) { for (int i = 0; i < 32; i++) if (a.m_arr[i] != b.m_arr[i]) return true; return false; }
struct D { AttestationData d; D(const char* s, const char* i, const char* r, const char* se, const char* sr, const char* te, const char* tr) {
    d.slot.value_ = vir_u64(s); d.index.value_ = vir_u64(i); arb(d.beacon_block_root, r);
    d.source.epoch.value_ = vir_u64(se); arb(d.source.root, sr); d.target.epoch.value_ = vir_u64(te); arb(d.target.root, tr); } };
#define DD(x) D x(#x ".slot", #x ".index", #x ".block_root", #x ".source.epoch", #x ".source.root", #x ".target.epoch", #x ".target.root")
SPEC spec_slashable() {
    DD(a); DD(b);
    const AttestationData &x = a.d, &y = b.d;
    bool r = x.is_slashable(y);
    bool differ = a.d.slot.value_ != b.d.slot.value_ || a.d.index.value_ != b.d.index.value_ || diff(a.d.beacon_block_root, b.d.beacon_block_root) ||
        a.d.source.epoch.value_ != b.d.source.epoch.value_ || diff(a.d.source.root, b.d.source.root) || a.d.target.epoch.value_ != b.d.target.epoch.value_ || diff(a.d.target.root, b.d.target.root);
    bool dbl = differ && vir_u64("a.target.epoch") == vir_u64("b.target.epoch");
    bool sur = vir_u64("a.source.epoch") < vir_u64("b.source.epoch") && vir_u64("b.target.epoch") < vir_u64("a.target.epoch");
    ASSERT(r == (dbl || sur), "AttestationData::is_slashable/ensures-double-or-surround-vote");
}
SPEC spec_valid() {
    // arbitrary attesting indices
    IndexedAttestation x; vir_hook1("indices", &x.attesting_indices.m_arr);
    uint64_t n = vir_u64("n"), q = vir_u64("q");
    const IndexedAttestation& c = x; const BeaconState* s = reinterpret_cast<const BeaconState*>(&x);
    bool r = c.is_valid(*s);
    if (r) {
        ASSERT(n > 0, "IndexedAttestation::is_valid/ensures-nonempty-when-true");
        vir_assume(q < n && q + 1 < n);
        ASSERT(vir_f64("index", q, 0) < vir_f64("index", q + 1, 0), "IndexedAttestation::is_valid/ensures-strictly-increasing-when-true");
    }
}
SPEC spec_valid_complete() {
    // strictly increasing, non-empty indices are accepted
    IndexedAttestation x; vir_hook1("indices_increasing", &x.attesting_indices.m_arr);
    vir_assume(vir_u64("n") > 0);
    const IndexedAttestation& c = x; const BeaconState* s = reinterpret_cast<const BeaconState*>(&x);
    ASSERT(c.is_valid(*s), "IndexedAttestation::is_valid/ensures-true-when-nonempty-and-strictly-increasing");
}
SPEC spec_valid_empty() {
    IndexedAttestation x; const IndexedAttestation& c = x; const BeaconState* s = reinterpret_cast<const BeaconState*>(&x);
    ASSERT(!c.is_valid(*s), "IndexedAttestation::is_valid/ensures-false-when-empty");
}
