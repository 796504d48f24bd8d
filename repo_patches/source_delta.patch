From 826bd4b78f9fa2c1a83d1593cba9dd488cb14996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:58 +0000
Subject: [PATCH 01/16] fix: keep the SHA-NI backend's saved state on the stack

The two-block loop saved the intermediate state in static storage, so two
threads hashing at the same time corrupted each other's digests.
---
 ssz/sha256_shani.asm | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/ssz/sha256_shani.asm b/ssz/sha256_shani.asm
index 43265de..3fd6be1 100644
--- a/ssz/sha256_shani.asm
+++ b/ssz/sha256_shani.asm
@@ -72,11 +72,14 @@
 
 %ifdef WINABI
 %define RSPSAVE		r9
+%endif
 
 struc frame
+.state_save:	resdq	4
+%ifdef WINABI
 .xmm_save:	resdq	5
-endstruc
 %endif
+endstruc
 
 %define MSG		xmm0
 %define STATE0		xmm1
@@ -123,6 +126,8 @@ sha256_shani:
 	movdqa		[rsp + frame.xmm_save + 2*16], xmm8
 	movdqa		[rsp + frame.xmm_save + 3*16], xmm9
 	movdqa		[rsp + frame.xmm_save + 4*16], xmm10
+%else
+	sub		rsp, frame_size + 8	; keeps rsp 16-byte aligned
 %endif
 
 	movdqa		SHUF_MASK, [PSHUFFLE_BYTE_FLIP_MASK wrt rip]
@@ -477,10 +482,10 @@ sha256_shani:
         ;; Rounds with PADDING
         
 	;; Save hash values for addition after rounds
-	movdqa		[ABEF_SAVEa wrt rip], STATE0
-	movdqa		[CDGH_SAVEa wrt rip], STATE1
-	movdqa		[ABEF_SAVEb wrt rip], STATE0b
-	movdqa		[CDGH_SAVEb wrt rip], STATE1b
+	movdqa		[rsp + frame.state_save + 0*16], STATE0
+	movdqa		[rsp + frame.state_save + 1*16], STATE1
+	movdqa		[rsp + frame.state_save + 2*16], STATE0b
+	movdqa		[rsp + frame.state_save + 3*16], STATE1b
 
 	;; Rounds 0-3
 	movdqa		MSG, [SHA256PADDING + 0*16]
@@ -608,10 +613,10 @@ sha256_shani:
 		sha256rnds2	STATE0, STATE1
 		sha256rnds2	STATE0b, STATE1b
 
-	paddd		STATE0, [ABEF_SAVEa wrt rip]
-	paddd		STATE1, [CDGH_SAVEa wrt rip]
-	paddd           STATE0b, [ABEF_SAVEb wrt rip]
-	paddd		STATE1b, [CDGH_SAVEb wrt rip]
+	paddd		STATE0, [rsp + frame.state_save + 0*16]
+	paddd		STATE1, [rsp + frame.state_save + 1*16]
+	paddd           STATE0b, [rsp + frame.state_save + 2*16]
+	paddd		STATE1b, [rsp + frame.state_save + 3*16]
 
 
 	;; Write hash values back in the correct order
@@ -966,6 +971,8 @@ sha256_shani:
 	movdqa		xmm9,  [rsp + frame.xmm_save + 3*16]
 	movdqa		xmm10, [rsp + frame.xmm_save + 4*16]
 	mov		rsp, RSPSAVE
+%else
+	add		rsp, frame_size + 8
 %endif
 
 	ret	
@@ -1013,13 +1020,3 @@ PADDING:
         dd      0x521afaca, 0x31338431, 0x6ed41a95, 0x6d437890
         dd      0xc39c91f2, 0x9eccabbd, 0xb5c9a0e6, 0x532fb63c
         dd      0xd2c741c6, 0x7237ea3, 0xa4954b68, 0x4c191d76
-
-section .data
-
-align 64
-
-ABEF_SAVEa:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEa:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-ABEF_SAVEb:     dd      0x9b05688c, 0x510e527f, 0xbb67ae85, 0x6a09e667
-CDGH_SAVEb:     dd      0x5be0cd19, 0x1f83d9ab, 0xa54ff53a, 0x3c6ef372
-
-- 
2.43.0


From fce7760875107def2ed732d09814e16b9cd908d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 02/16] fix: add the missing helpers/bytes_to_string.hpp and
 the includes bytes_to_int.hpp relies on

---
 helpers/bytes_to_int.hpp    |  2 ++
 helpers/bytes_to_string.hpp | 43 +++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)
 create mode 100644 helpers/bytes_to_string.hpp

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index b3ed1d3..846b217 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -23,7 +23,9 @@
 #include <array>
 #include <concepts>
 #include <cstddef>
+#include <cstdint>
 #include <string>
+#include <string_view>
 
 namespace {
 struct Table {
diff --git a/helpers/bytes_to_string.hpp b/helpers/bytes_to_string.hpp
new file mode 100644
index 0000000..302d0ef
--- /dev/null
+++ b/helpers/bytes_to_string.hpp
@@ -0,0 +1,43 @@
+/*  bytes_to_string.hpp
+ *
+ *  This file is part of Mammon.
+ *  mammon is a greedy and selfish ETH consensus client.
+ *
+ *  Copyright (c) 2021 - Reimundo Heluani (potuz) potuz@potuz.net
+ *
+ *  This program is free software: you can redistribute it and/or modify
+ *  it under the terms of the GNU General Public License as published by
+ *  the Free Software Foundation, either version 3 of the License, or
+ *  (at your option) any later version.
+ *
+ *  This program is distributed in the hope that it will be useful,
+ *  but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *  MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ *  GNU General Public License for more details.
+ *
+ *  You should have received a copy of the GNU General Public License
+ *  along with this program.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+#pragma once
+#include <array>
+#include <cstddef>
+#include <cstdint>
+#include <string>
+
+namespace helpers {
+
+// The bytes in order, two lower case hex digits each, prepended with 0x
+template <std::size_t N>
+std::string bytes_to_string(const std::array<std::uint8_t, N> &arr) {
+    constexpr char digits[] = "0123456789abcdef";  // NOLINT
+    std::string ret{"0x"};
+    ret.reserve(2 * N + 2);
+    for (auto byte : arr) {
+        ret.push_back(digits[byte >> 4]);    // NOLINT
+        ret.push_back(digits[byte & 0x0f]);  // NOLINT
+    }
+    return ret;
+}
+
+}  // namespace helpers
-- 
2.43.0


From 23fffeb8ba5bd360f6c4b71057883e8230cd0489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 03/16] fix: compare the content of containers, vectors and
 lists

---
 beacon-chain/attestation.hpp  |  8 ++++++++
 beacon-chain/beacon_block.hpp | 12 ++++++++++++
 beacon-chain/deposits.hpp     |  6 ++++++
 beacon-chain/eth1data.hpp     |  2 ++
 beacon-chain/validator.hpp    |  2 ++
 common/containers.hpp         | 12 ++++++++++++
 6 files changed, 42 insertions(+)

diff --git a/beacon-chain/attestation.hpp b/beacon-chain/attestation.hpp
index b31950b..84e5861 100644
--- a/beacon-chain/attestation.hpp
+++ b/beacon-chain/attestation.hpp
@@ -44,6 +44,8 @@ struct AttestationData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_slashable(const AttestationData&) const;
 
+    bool operator==(const AttestationData &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -58,6 +60,8 @@ struct IndexedAttestation : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     bool is_valid(const eth::BeaconState& state) const; 
 
+    bool operator==(const IndexedAttestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -72,6 +76,8 @@ struct PendingAttestation : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
 
+    bool operator==(const PendingAttestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
@@ -85,6 +91,8 @@ struct Attestation : public ssz::Container {
     BytesVector serialize() const override;
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override;
     
+    bool operator==(const Attestation &) const = default;
+
     YAML::Node encode() const override;
     bool decode(const YAML::Node &node) override;
 };
diff --git a/beacon-chain/beacon_block.hpp b/beacon-chain/beacon_block.hpp
index bdc4d32..46b890b 100644
--- a/beacon-chain/beacon_block.hpp
+++ b/beacon-chain/beacon_block.hpp
@@ -159,6 +159,8 @@ class BeaconBlockBody : public ssz::Container {
                              &attestations_, &deposits_, &voluntary_exits_});
     }
 
+    bool operator==(const BeaconBlockBody &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"randao_reveal", &randao_reveal_},
                         {"eth1_data", &eth1_data_},
@@ -212,6 +214,8 @@ class BeaconBlock : public ssz::Container {
         return deserialize_(it, end, {&slot_, &proposer_index_, &parent_root_, &state_root_, &body_});
     }
 
+    bool operator==(const BeaconBlock &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"slot", &slot_},
                         {"proposer_index", &proposer_index_},
@@ -241,6 +245,8 @@ struct SignedBeaconBlockHeader : public ssz::Container {
         return deserialize_(it, end, {&message, &signature});
     }
 
+    bool operator==(const SignedBeaconBlockHeader &) const = default;
+
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
     bool decode(const YAML::Node &node) override {
@@ -259,6 +265,8 @@ struct ProposerSlashing : public ssz::Container {
         return deserialize_(it, end, {&signed_header_1, &signed_header_2});
     }
 
+    bool operator==(const ProposerSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"signed_header_1", &signed_header_1}, {"signed_header_2", &signed_header_2}});
     }
@@ -275,6 +283,8 @@ struct AttesterSlashing : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&attestation_1, &attestation_2});
     }
+    bool operator==(const AttesterSlashing &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"attestation_1", &attestation_1}, {"attestation_2", &attestation_2}});
     }
@@ -294,6 +304,8 @@ struct SignedBeaconBlock : public ssz::Container {
         return deserialize_(it, end, {&message, &signature});
     }
 
+    bool operator==(const SignedBeaconBlock &) const = default;
+
     YAML::Node encode() const override { return encode_({{"message", &message}, {"signature", &signature}}); }
 
     bool decode(const YAML::Node &node) override {
diff --git a/beacon-chain/deposits.hpp b/beacon-chain/deposits.hpp
index 5df397a..b68f124 100644
--- a/beacon-chain/deposits.hpp
+++ b/beacon-chain/deposits.hpp
@@ -43,6 +43,8 @@ struct DepositMessage : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount});
     }
+    bool operator==(const DepositMessage &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey}, {"withdrawal_credentials", &withdrawal_credentials}, {"amount", &amount}});
     }
@@ -71,6 +73,8 @@ struct DepositData : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&pubkey, &withdrawal_credentials, &amount, &signature});
     }
+    bool operator==(const DepositData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"pubkey", &pubkey},
                         {"withdrawal_credentials", &withdrawal_credentials},
@@ -98,6 +102,8 @@ struct Deposit : public ssz::Container {
         return deserialize_(it, end, {&proof, &data});
     }
 
+    bool operator==(const Deposit &) const = default;
+
     YAML::Node encode() const override { return encode_({{"proof", &proof}, {"data", &data}}); }
 
     bool decode(const YAML::Node &node) override { return decode_(node, {{"proof", &proof}, {"data", &data}}); }
diff --git a/beacon-chain/eth1data.hpp b/beacon-chain/eth1data.hpp
index 24503ae..eff7de4 100644
--- a/beacon-chain/eth1data.hpp
+++ b/beacon-chain/eth1data.hpp
@@ -38,6 +38,8 @@ struct Eth1Data : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         return deserialize_(it, end, {&deposit_root, &deposit_count, &block_hash});
     }
+    bool operator==(const Eth1Data &) const = default;
+
     YAML::Node encode() const override {
         return encode_(
             {{"deposit_root", &deposit_root}, {"deposit_count", &deposit_count}, {"block_hash", &block_hash}});
diff --git a/beacon-chain/validator.hpp b/beacon-chain/validator.hpp
index 0b202f2..0267477 100644
--- a/beacon-chain/validator.hpp
+++ b/beacon-chain/validator.hpp
@@ -46,6 +46,8 @@ class Validator : public ssz::Container {
     bool is_eligible_for_activation_queue() const noexcept;
     bool is_slashable(const Epoch& epoch) const noexcept;
 
+    bool operator==(const Validator &) const = default;
+
     YAML::Node encode() const override; 
     bool decode(const YAML::Node &node) override;
 };
diff --git a/common/containers.hpp b/common/containers.hpp
index e044eea..593785d 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -89,6 +89,8 @@ class VectorFixedSizedParts : public ssz::Container {
         return true;
     }
 
+    bool operator==(const VectorFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::array<T, N>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::array<T, N>>::decode(node, m_arr); }
 };
@@ -153,6 +155,8 @@ class ListFixedSizedParts : public ssz::Container {
         }
         return true;
     }
+    bool operator==(const ListFixedSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
 };
@@ -228,6 +232,8 @@ class ListVariableSizedParts : public ssz::Container {
         return true;
     }
 
+    bool operator==(const ListVariableSizedParts &) const = default;
+
     YAML::Node encode() const override { return YAML::convert<std::vector<T>>::encode(m_arr); }
     bool decode(const YAML::Node &node) override { return YAML::convert<std::vector<T>>::decode(node, m_arr); }
 };
@@ -279,6 +285,8 @@ struct ForkData : public ssz::Container {
         return deserialize_(it, end, {&current_version, &genesis_validators_root});
     }
 
+    bool operator==(const ForkData &) const = default;
+
     YAML::Node encode() const override {
         return encode_({{"current_version", &current_version}, {"genesis_validators_root", &genesis_validators_root}});
     }
@@ -301,6 +309,8 @@ struct Checkpoint : public ssz::Container {
         return deserialize_(it, end, {&epoch, &root});
     }
 
+    bool operator==(const Checkpoint &) const = default;
+
     YAML::Node encode() const override { return encode_({{"epoch", &epoch}, {"root", &root}}); }
 
     bool decode(const YAML::Node &node) override { return decode_(node, {{"epoch", &epoch}, {"root", &root}}); }
@@ -319,6 +329,8 @@ struct SigningData : public ssz::Container {
         return deserialize_(it, end, {&object_root, &domain});
     }
 
+    bool operator==(const SigningData &) const = default;
+
     YAML::Node encode() const override { return encode_({{"object_root", &object_root}, {"domain", &domain}}); }
 
     bool decode(const YAML::Node &node) override {
-- 
2.43.0


From 6306ac20c92a108cd4f8f8c6dcb09a683164d2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 04/16] fix: reject byte strings that encode no bit list within
 the limit

---
 common/bitlist.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index acc70d0..a141ad7 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -50,10 +50,15 @@ std::vector<std::uint8_t> Bitlist::serialize() const {
     return ret;
 }
 bool Bitlist::deserialize(ssz::SSZIterator it, ssz::SSZIterator end) {
+    m_arr.clear();
+    if (it == end) return false;
     auto last = end;
     --last;
+    // the delimiter bit is always in the last byte
+    if (*last == 0) return false;
     int msb = std::countl_zero(*last);
-    m_arr.clear();
+    auto bits = std::size_t(std::distance(it, last)) * constants::BITS_PER_BYTE + (constants::BITS_PER_BYTE - 1 - msb);
+    if (limit_ && bits > limit_) return false;
 
     for (auto i = it; i != last; ++i)
         for (auto j = 0; j < constants::BITS_PER_BYTE; ++j) m_arr.push_back((*i >> j) & 1);
-- 
2.43.0


From eb92ca33022a338fd48767a549b3e987ae7de3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 05/16] fix: print the bytes of bit fields as hex digits
 instead of characters

---
 common/bitlist.cpp   | 2 +-
 common/bitvector.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index a141ad7..b3a8d99 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -87,7 +87,7 @@ std::string Bitlist::to_string() const {
     std::ios_base::fmtflags save = std::cout.flags();
     auto serial = this->serialize();
     os << "0x";
-    for (auto i = serial.cbegin(); i != serial.cend(); ++i) os << std::setfill('0') << std::setw(2) << std::hex << *i;
+    for (auto i = serial.cbegin(); i != serial.cend(); ++i) os << std::setfill('0') << std::setw(2) << std::hex << unsigned(*i);
     std::cout.flags(save);
     return os.str();
 };
diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 276045f..be6261f 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -66,7 +66,7 @@ class Bitvector : public ssz::Container {
         auto serial = this->serialize();
         os << "0x";
         for (auto i = serial.cbegin(); i != serial.cend(); ++i)
-            os << std::setfill('0') << std::setw(2) << std::hex << *i;
+            os << std::setfill('0') << std::setw(2) << std::hex << unsigned(*i);
         std::cout.flags(save);
         return os.str();
     };
-- 
2.43.0


From 6d1f531e73e220bbb521f386ce014abaffc54f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 06/16] fix: report hex text that encodes no bit list

---
 common/bitlist.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index b3a8d99..78e60f6 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -79,7 +79,7 @@ void Bitlist::from_hexstring(const std::string& str) {
         buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
         hex.push_back(buffer);
     }
-    deserialize(hex.begin(), hex.end());
+    if (!deserialize(hex.begin(), hex.end())) throw std::invalid_argument("string does not encode a bit list");
 }
 
 std::string Bitlist::to_string() const {
-- 
2.43.0


From 8ceb6e7b282f70aa93c10424e72bf184f6847f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 07/16] fix: reject bit vectors with a set unused bit

---
 common/bitvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index be6261f..c0553f9 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -82,6 +82,7 @@ class Bitvector : public ssz::Container {
     }
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         if (std::distance(it, end) != (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE) return false;
+        if (N % constants::BITS_PER_BYTE && (*std::prev(end) >> (N % constants::BITS_PER_BYTE))) return false;
         for (auto i = it; i != end; ++i)
             for (int j = 0; j < constants::BITS_PER_BYTE && constants::BITS_PER_BYTE * std::distance(it, i) + j < N;
                  ++j)
-- 
2.43.0


From 0f12782b6a63f977bae89edf52c5af8a01985193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 08/16] fix: zero the bits of a default constructed bit vector

---
 common/bitvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index c0553f9..75efb7e 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -35,7 +35,7 @@ namespace eth {
 template <unsigned N>
 class Bitvector : public ssz::Container {
    private:
-    std::array<bool, N> m_arr;
+    std::array<bool, N> m_arr{};
 
    public:
     static constexpr std::size_t ssz_size = (N + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE;
-- 
2.43.0


From 85116a12ae797cf884bf77b0e7f4f844ba3bfa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 09/16] fix: reject bytes left over after the last fixed size
 part

---
 ssz/ssz_container.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ssz/ssz_container.cpp b/ssz/ssz_container.cpp
index 13207eb..9fa5d88 100644
--- a/ssz/ssz_container.cpp
+++ b/ssz/ssz_container.cpp
@@ -100,9 +100,9 @@ bool Container::deserialize_(SSZIterator it, SSZIterator end, const std::vector<
             it += constants::BYTES_PER_LENGTH_OFFSET;
         }
     }
-    if (last_offset)
-        if (!last_variable_part->deserialize(begin + last_offset, end)) return false;
-    return true;
+    if (last_offset) return last_variable_part->deserialize(begin + last_offset, end);
+    // without variable parts nothing may be left over
+    return it == end;
 }
 
 std::vector<Chunk> Container::hash_tree() const {
-- 
2.43.0


From 51d4f4a5bd7df3deaf0ad43ade996a4037307848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 10/16] fix: reject encoded lists above the limit

---
 common/containers.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/containers.hpp b/common/containers.hpp
index 593785d..3af7660 100644
--- a/common/containers.hpp
+++ b/common/containers.hpp
@@ -147,6 +147,7 @@ class ListFixedSizedParts : public ssz::Container {
     bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
         m_arr.clear();
         if (std::distance(it, end) % T::ssz_size) return false;
+        if (limit_ && std::distance(it, end) / T::ssz_size > limit_) return false;
 
         for (auto i = it; i != end; i += T::ssz_size) {
             T obj;
@@ -211,6 +212,7 @@ class ListVariableSizedParts : public ssz::Container {
         auto first_offset = helpers::to_integer_little_endian<std::uint32_t>(&*it);
         if (first_offset < constants::BYTES_PER_LENGTH_OFFSET) return false;
         if (std::distance(start, end) < first_offset) return false;
+        if (limit_ && first_offset / constants::BYTES_PER_LENGTH_OFFSET > limit_) return false;
         auto last_offset = first_offset;
         it += constants::BYTES_PER_LENGTH_OFFSET;
 
-- 
2.43.0


From c52680b31d026a7497e4cf869737a282cbc5956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 11/16] fix: report more chunks than the limit instead of
 overflowing the tree

---
 ssz/hashtree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index 8fa375d..c85bb0c 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -111,6 +111,7 @@ HashTree::HashTree(const std::vector<Chunk>& chunks, std::uint64_t limit) {
         hash_tree_ = chunks;
     else {
         if (chunks.empty()) throw std::out_of_range("empty chunks is not allowed");
+        if (limit && chunks.size() > limit) throw std::out_of_range("more chunks than the limit");
         auto effective_depth = helpers::log2ceil(chunks.size());
         auto depth = (limit == 0) ? effective_depth : helpers::log2ceil(limit);
         auto cache_size = depth - effective_depth + std::bit_ceil(chunks.size()) - 1;
-- 
2.43.0


From 66090998ca3e0ebe29295fdb2ab85aa3cd20e98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 12/16] fix: keep the hex digit lookup inside its table

---
 helpers/bytes_to_int.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/helpers/bytes_to_int.hpp b/helpers/bytes_to_int.hpp
index 846b217..df8820e 100644
--- a/helpers/bytes_to_int.hpp
+++ b/helpers/bytes_to_int.hpp
@@ -53,7 +53,10 @@ struct Table {
         tab['f'] = 15;
         tab['F'] = 15;
     }
-    constexpr long long operator[](char const idx) const { return tab[(std::size_t)idx]; }
+    constexpr long long operator[](char const idx) const {
+        auto pos = std::size_t(static_cast<unsigned char>(idx));
+        return pos < tab.size() ? tab[pos] : 0;
+    }
 } constexpr table;
 }  // namespace
 
-- 
2.43.0


From a8a77d75afc5367b9f474d2dbdfaecbb26ff1606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 13/16] fix: treat the features of an absent CPUID leaf as
 missing

---
 ssz/hasher.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssz/hasher.cpp b/ssz/hasher.cpp
index e488227..4f4b3fe 100644
--- a/ssz/hasher.cpp
+++ b/ssz/hasher.cpp
@@ -42,7 +42,8 @@ void Hasher::sha256_sse(unsigned char* output, const unsigned char* input, std::
 
 const Hasher::IMPL Hasher::implemented() {
     IMPL ret = IMPL::NONE; 
-    std::uint32_t a, b, c, d;  // NOLINT
+    // zero, because a leaf the CPU does not have leaves them untouched
+    std::uint32_t a{}, b{}, c{}, d{};
     __get_cpuid_count(CPUID_LEAF, 0, &a, &b, &c, &d);
     if (b & bit_SHA) ret = ret | IMPL::SHA;
     if (b & bit_AVX2) ret = ret | IMPL::AVX2;
-- 
2.43.0


From 541cb656822ffd8b4a3068a9293013e8e29fc9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:51 +0000
Subject: [PATCH 14/16] fix: index bit lists with std::size_t so that 2^31 bits
 and more are handled

---
 common/bitlist.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/bitlist.cpp b/common/bitlist.cpp
index 78e60f6..a901ede 100644
--- a/common/bitlist.cpp
+++ b/common/bitlist.cpp
@@ -35,7 +35,7 @@ namespace eth {
 std::vector<ssz::Chunk> Bitlist::hash_tree() const {
     using namespace constants;
     std::vector<std::uint8_t> ret((m_arr.size() + BITS_PER_BYTE - 1) / BITS_PER_BYTE, 0);
-    for (int i = 0; i < m_arr.size(); ++i) ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % BITS_PER_BYTE);
+    for (std::size_t i = 0; i < m_arr.size(); ++i) ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % BITS_PER_BYTE);
     auto limit = (limit_ + BITS_PER_BYTE * BYTES_PER_CHUNK - 1) / (BITS_PER_BYTE * BYTES_PER_CHUNK);
     ssz::HashTree ht{ret, limit};
     ht.mix_in(m_arr.size());
@@ -44,7 +44,7 @@ std::vector<ssz::Chunk> Bitlist::hash_tree() const {
 
 std::vector<std::uint8_t> Bitlist::serialize() const {
     std::vector<std::uint8_t> ret(m_arr.size() / constants::BITS_PER_BYTE + 1, 0);
-    for (int i = 0; i < m_arr.size(); ++i)
+    for (std::size_t i = 0; i < m_arr.size(); ++i)
         ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % constants::BITS_PER_BYTE);
     ret.back() |= 1 << (m_arr.size() % constants::BITS_PER_BYTE);
     return ret;
@@ -75,7 +75,7 @@ void Bitlist::from_hexstring(const std::string& str) {
 
     std::uint8_t buffer = 0;
     std::vector<std::uint8_t> hex;
-    for (int offset = 2; offset < str.length(); offset += 2) {
+    for (std::size_t offset = 2; offset < str.length(); offset += 2) {
         buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
         hex.push_back(buffer);
     }
-- 
2.43.0


From 63ccf2d4f15187b6a82beb90afde85fee5a4b5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:51 +0000
Subject: [PATCH 15/16] fix: index hex text of bit vectors with std::size_t so
 that it cannot wrap

---
 common/bitvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/bitvector.hpp b/common/bitvector.hpp
index 75efb7e..0b95555 100644
--- a/common/bitvector.hpp
+++ b/common/bitvector.hpp
@@ -50,12 +50,12 @@ class Bitvector : public ssz::Container {
 
         std::uint8_t buffer = 0;
         std::vector<std::uint8_t> hex;
-        for (int offset = 2; offset < str.length(); offset += 2) {
+        for (std::size_t offset = 2; offset < str.length(); offset += 2) {
             buffer = (helpers::hextoint(str[offset]) << 4) + helpers::hextoint(str[offset + 1]);
             hex.push_back(buffer);
         }
         m_arr.fill(0);
-        for (int i = 0; i < hex.size(); ++i)
+        for (std::size_t i = 0; i < hex.size(); ++i)
             for (int j = 0; j < constants::BITS_PER_BYTE && constants::BITS_PER_BYTE * i + j < N; ++j)
                 m_arr[constants::BITS_PER_BYTE * i + j] = ((hex[i] >> j) & 1);
     }
-- 
2.43.0


From 46f09ec42eb6c17fd5813c5f5bf30c61d7180e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:57 +0000
Subject: [PATCH 16/16] fix: make the zero-subtree table cover every limit
 (limits above 2^42 read past its end)

---
 ssz/hashtree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssz/hashtree.cpp b/ssz/hashtree.cpp
index c85bb0c..968d0cc 100644
--- a/ssz/hashtree.cpp
+++ b/ssz/hashtree.cpp
@@ -39,7 +39,7 @@ Chunk hash_2_chunks(const Chunk& first, const Chunk& second, const Hasher& hashe
     return ret;
 }
 // clang-format off
-const auto ZERO_HASH_DEPTH{42};
+const auto ZERO_HASH_DEPTH{64};
 constexpr Chunk zero_hash{};
 
 template <std::size_t N> requires(N > 0)
-- 
2.43.0

