// C10, C21, C22: what the members of every container type do with its fields. The specification functions are generated from the
// independent phase-0 schema (lib/ssz.py) by vir/p_cont.py.
#include "vir.hpp"
#include "beacon-chain/attestation.cpp"
#include "beacon-chain/beacon_block.cpp"
#include "beacon-chain/beacon_state.cpp"
#include "beacon-chain/validator.cpp"
#include "beacon-chain/deposits.hpp"
#include "beacon-chain/eth1data.hpp"
using namespace eth;
typedef std::vector<uint8_t> V;
#define ACC(n) template <class X> static auto& n(X& x) { if constexpr (requires { x.n; }) return x.n; else return x.n##_; }
#define TYPE(C, n, ...) ASSERT((std::is_same_v<std::remove_cvref_t<decltype(f_##C::n(x))>, __VA_ARGS__>), #C "." #n "/element-type")
#include "gen.inc"
