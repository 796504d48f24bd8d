#include "drv.hpp"
#include "beacon-chain/attestation.hpp"
#include "beacon-chain/beacon_block.hpp"
#include "beacon-chain/beacon_state.hpp"
#include "beacon-chain/deposits.hpp"
#include "beacon-chain/validator.hpp"
using namespace eth;
#define F(n) if constexpr (requires { x.n; }) r += (r.empty() ? "" : " ") + std::string(#n "=") + hex(x.n.serialize()); \
    else if constexpr (requires { x.n##_; }) r += (r.empty() ? "" : " ") + std::string(#n "=") + hex(x.n##_.serialize()); else r += (r.empty() ? "" : " ") + std::string(#n "=?");
#define G(n) if constexpr (requires { x.n().serialize(); }) r += (r.empty() ? "" : " ") + std::string(#n "=") + hex(x.n().serialize());
#include "fields.inc"
void reg_cont() {
#define C(T) Typ<T>::def(#T); op("fld " #T, [](const Args& a) -> std::string { auto p = std::make_unique<T>(); if (!dec(*p, unhex(a[0]))) return "0"; return fields_##T(*p); }); \
    op("acc " #T, [](const Args& a) -> std::string { auto p = std::make_unique<T>(); if (!dec(*p, unhex(a[0]))) return "0"; return acc_##T(*p); });
#include "types.inc"
#undef C
    Typ<ListVariableSizedParts<Attestation>>::lim("lAtt");
}
