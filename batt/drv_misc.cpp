#include "drv.hpp"
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/beacon_state.hpp"
#include "beacon-chain/validator.hpp"
#include "helpers/math.hpp"
using namespace eth;
void reg_misc() {
    ops()["isqrt ."] = [](const Args& a) -> std::string { return std::to_string(helpers::integer_squareroot<std::uint64_t>(std::stoull(a[0]))); };
    ops()["log2 u64"] = [](const Args& a) -> std::string { return std::to_string(helpers::log2ceil(std::uint64_t(std::stoull(a[0])))); };
    ops()["vp ."] = [](const Args& a) -> std::string {
        Validator v; if (!dec(v, unhex(a[0]))) return "x";
        const Validator& c = v; Epoch e{std::uint64_t(std::stoull(a[1]))};
        return std::to_string(c.is_active(e)) + std::to_string(c.is_slashable(e)) + std::to_string(c.is_eligible_for_activation_queue());
    };
    ops()["asl ."] = [](const Args& a) -> std::string {
        AttestationData x, y; if (!dec(x, unhex(a[0])) || !dec(y, unhex(a[1]))) return "x";
        const AttestationData &cx = x, &cy = y;
        return std::to_string(cx.is_slashable(cy));
    };
    ops()["iav ."] = [](const Args& a) -> std::string {
        static BeaconState* st = new BeaconState;
        IndexedAttestation x; if (!dec(x, unhex(a[0]))) return "x";
        const IndexedAttestation& c = x;
        return std::to_string(c.is_valid(*st));
    };
}
