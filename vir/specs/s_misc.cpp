#include "vir.hpp"
#ifdef S_VALIDATOR
#include "common/bytes.hpp"
#include "beacon-chain/validator.cpp"
using namespace eth;
constexpr uint64_t FAR = ~0ull, MAXB = 32000000000ull;

static void arb(Validator& v) {
    v.effective_balance.value_ = vir_u64("effective_balance"); v.slashed.value_ = vir_bool("slashed");
    v.activation_eligibility_epoch.value_ = vir_u64("activation_eligibility_epoch"); v.activation_epoch.value_ = vir_u64("activation_epoch");
    v.exit_epoch.value_ = vir_u64("exit_epoch"); v.withdrawable_epoch.value_ = vir_u64("withdrawable_epoch");
}
SPEC spec_is_active() {
    Validator v; arb(v); Epoch e{vir_u64("epoch")}; const Validator& w = v;
    ASSERT(w.is_active(e) == (vir_u64("activation_epoch") <= vir_u64("epoch") && vir_u64("epoch") < vir_u64("exit_epoch")), "Validator::is_active/ensures-active-exactly-in-[activation,exit)");
}
SPEC spec_is_slashable() {
    Validator v; arb(v); Epoch e{vir_u64("epoch")}; const Validator& w = v;
    ASSERT(w.is_slashable(e) == (!vir_bool("slashed") && vir_u64("activation_epoch") <= vir_u64("epoch") && vir_u64("epoch") < vir_u64("withdrawable_epoch")), "Validator::is_slashable/ensures-unslashed-in-[activation,withdrawable)");
}
SPEC spec_is_eligible() {
    Validator v; arb(v); const Validator& w = v;
    ASSERT(w.is_eligible_for_activation_queue() == (vir_u64("activation_eligibility_epoch") == FAR && vir_u64("effective_balance") == MAXB), "Validator::is_eligible_for_activation_queue/ensures-far-future-and-max-balance");
}
SPEC spec_frame() {
    // the predicates change nothing
    Validator v; arb(v); Epoch e{vir_u64("epoch")};
    v.is_active(e); v.is_slashable(e); v.is_eligible_for_activation_queue();
    ASSERT(v.effective_balance.value_ == vir_u64("effective_balance") && v.slashed.value_ == vir_bool("slashed") && v.activation_eligibility_epoch.value_ == vir_u64("activation_eligibility_epoch") &&
           v.activation_epoch.value_ == vir_u64("activation_epoch") && v.exit_epoch.value_ == vir_u64("exit_epoch") && v.withdrawable_epoch.value_ == vir_u64("withdrawable_epoch") && e.value_ == vir_u64("epoch"),
           "Validator predicates/assigns-nothing");
}
#endif
#ifdef S_MATH
#include "helpers/math.hpp"
SPEC spec_log2() {
    uint64_t n = vir_u64("n"); uint64_t k = uint64_t(int64_t(helpers::log2ceil(n)));
    ASSERT(k <= 64, "log2ceil/ensures-range");
    ASSERT(n > 1 || k == 0, "log2ceil/ensures-zero-for-0-and-1");
    if (n > 1) {
        ASSERT(k >= 1, "log2ceil/ensures-at-least-1");
        vir_assume(k >= 1 && k <= 64);
        ASSERT(k == 64 || n <= (1ull << k), "log2ceil/ensures-2^k>=n");
        ASSERT(n > (1ull << (k - 1)), "log2ceil/ensures-k-least");
    }
}
SPEC spec_isqrt() {
    uint64_t x = vir_u64("x");
    uint64_t r = helpers::integer_squareroot<uint64_t>(x);
    ASSERT(r <= 0xffffffffull, "integer_squareroot/ensures-range");
    vir_assume(r <= 0xffffffffull);
    ASSERT(r * r <= x, "integer_squareroot/ensures-r*r<=x");
    ASSERT(r == 0xffffffffull || (r + 1) * (r + 1) > x, "integer_squareroot/ensures-(r+1)^2>x");
}
#endif
