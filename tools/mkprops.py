#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script only to make editing sane).
import json
P=[]
def p(id,title,st,over,qtext,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
T4="The 4 tests feed one fixed 512-byte input, one block count per backend (1, 4, 8, 8)."
def sha(id,title,what,files,mech,extra=""):
    p(id,title,f"For every block count n (including 0) and every content of the n consecutive 64-byte input blocks, {what} writes exactly n consecutive 32-byte results, the i-th being the SHA-256 digest of the i-th 64-byte block. {extra}".strip(),
      ["inputs"],"all block counts n >= 0 and all 64n-byte inputs",
      T4+" They reach no other data, no tail path and no other multiple of the unrolled width.",files,mech,["bytes written to the output buffer"])
sha("C01","Portable SSE hashing backend computes SHA-256 of every 64-byte block","the portable (SSE) hashing backend",
  ["ssz/hasher.cpp","ssz/sha256_avx_one_block.asm"],[("block loop of the SSE backend","ssz/hasher.cpp"),("single-block SHA-256 over data block and fixed padding block","ssz/sha256_avx_one_block.asm")])
sha("C02","AVX hashing backend computes SHA-256 of every 64-byte block","the AVX (4-lane) hashing backend",
  ["ssz/sha256_avx.asm","ssz/sha256_avx_one_block.asm"],[("4-block vector loop, transposition and one-block tail","ssz/sha256_avx.asm"),("one-block routine used for the tail","ssz/sha256_avx_one_block.asm")])
sha("C03","AVX2 hashing backend computes SHA-256 of every 64-byte block","the AVX2 (8-lane) hashing backend",
  ["ssz/sha256_avx2.asm","ssz/transpose_avx2.asm","ssz/sha256_avx.asm"],[("8-block vector loop, transposition and hand-over of the tail to the 4-lane backend","ssz/sha256_avx2.asm"),("8x8 transposition","ssz/transpose_avx2.asm")])
sha("C04","SHA-NI hashing backend computes SHA-256 of every 64-byte block","the SHA-extensions hashing backend",
  ["ssz/sha256_shani.asm"],[("two-block interleaved loop, one-block tail, precomputed padding schedule","ssz/sha256_shani.asm")])
p("C05","Hashing backends write only the digests and respect the calling convention",
  "For every block count and every buffer alignment, each hashing backend reads only its 64n input bytes and writes only the 32n output bytes (besides scratch space on its own stack frame), never requires aligned buffers, and terminates. It returns with the stack pointer and all callee-saved registers as they were on entry, never modifies its constant tables and keeps no state outside its own stack frame, so that concurrent calls do not disturb each other.",
  ["inputs"],"all block counts and all buffer addresses",
  "Tests use one buffer alignment, one block count, and compilers may or may not keep live values in callee-saved registers across the call, so a violation usually stays invisible.",
  ["ssz/sha256_avx.asm","ssz/sha256_avx2.asm","ssz/sha256_avx_one_block.asm","ssz/sha256_shani.asm"],
  [("frame set-up and restore, loop counters, unaligned moves","ssz/*.asm")],["memory outside the output buffer","registers after return"])
p("C06","Backend choice follows the CPU's reported features and the caller's request",
  "For every CPUID answer, the automatic choice is the first of SHA-NI, AVX2, AVX, portable whose feature bit the CPU reports, the reported feature set lists exactly those features, and a feature that the CPU cannot report (leaf absent) counts as missing. An explicitly requested backend is the one that is used, and a request for none behaves as the automatic choice. The automatically chosen backend needs only instructions whose feature the CPU reports (AVX2 and SHA-NI processors are taken to have what these extensions build on).",
  ["configurations","inputs"],"all CPUID register values, including CPUs without leaf 7, and all requested backends",
  "The tests run on two CPUs (host, fully featured emulated CPU) and skip silently when a feature is absent; no other feature combination is ever executed.",
  ["ssz/hasher.cpp","ssz/hasher.hpp"],[("feature detection","ssz/hasher.cpp implemented()"),("selection","ssz/hasher.cpp best_sha256_implementation(), constructor")],["which backend runs"])
p("C07","Merkle root equals the SSZ merkleization for every chunk count and limit",
  "For every non-empty list of 32-byte chunks and every limit (0 meaning no limit) that is at least the chunk count, the computed root is the root of the binary SHA-256 tree over the chunks padded with zero chunks up to the next power of two of the limit (of the count when there is no limit). An empty list, or more chunks than the limit allows, is reported as an error instead of yielding a root.",
  ["inputs"],"all chunk counts (below 2^51, the address space), all chunk values, all 64-bit limits",
  "No test builds a tree at all (only raw hashing is tested); odd counts at each level, deep zero padding and over-limit inputs are never exercised.",
  ["ssz/hashtree.cpp","ssz/hashtree.hpp","helpers/math.hpp"],[("level-by-level reduction and zero-subtree padding","ssz/hashtree.cpp merkleize()"),("zero-subtree table","ssz/hashtree.cpp"),("depth computation","helpers/math.hpp log2ceil()")],["hash tree root"])
p("C08","Tree building stays inside its buffers and terminates",
  "For every chunk count and limit, building a hash tree terminates and never reads or writes outside the buffers it allocated, the caller's chunks or the zero-subtree table. The root is the last node it leaves behind.",
  ["inputs"],"all chunk counts (below 2^51) and all 64-bit limits",
  "No test builds a tree; overruns of one node are silent without a sanitizer.",
  ["ssz/hashtree.cpp"],[("cache size computation and final trimming","ssz/hashtree.cpp HashTree::HashTree(), merkleize()")],["memory accesses"])
p("C09","Byte strings are packed into chunks with zero padding and lengths are mixed in",
  "For every byte string, its tree leaves are its bytes cut into 32-byte chunks in order, the last one padded with zero bytes, and a single zero chunk for the empty string. Mixing in a length replaces the root r by SHA-256(r || length as 32-byte little-endian).",
  ["inputs"],"all byte strings and all lengths",
  "Never executed by the tests.",["ssz/hashtree.cpp"],[("packing","ssz/hashtree.cpp pack_and_pad()"),("length mix-in","ssz/hashtree.cpp HashTree::mix_in()")],["hash tree root"])
p("C10","Container roots and encodings cover exactly the specified fields in order",
  "For every consensus container type (from checkpoint up to block and state, for both configuration presets), the hash tree root, the binary encoding and the binary decoding each range over exactly the container's phase-0 specification fields, in specification order, with the specified element types, vector lengths and list limits. The declared fixed size of a container equals the sum of its fields' encoded sizes, and variable-size containers declare none.",
  ["inputs","configurations"],"all container types, all field values, both presets",
  "No container type is compiled by the test target.",
  ["common/containers.hpp","beacon-chain/attestation.cpp","beacon-chain/beacon_block.hpp","beacon-chain/beacon_state.hpp","beacon-chain/deposits.hpp","beacon-chain/eth1data.hpp","beacon-chain/validator.cpp","config/minimal.hpp.in","config/mainnet.hpp.in"],
  [("per-type lists of parts","hash_tree(), serialize(), deserialize() of every container")],["encoded bytes","hash tree root"])
p("C11","Container encoding has the SSZ layout",
  "For every sequence of fields, the encoding of a container is the concatenation of its fixed-size fields and, for each variable-size field, a 4-byte little-endian offset, followed by the variable-size fields' encodings in order. Each offset equals the number of bytes that precede that field's encoding.",
  ["inputs"],"all numbers and kinds of fields, all field encodings with a total below 2^32 bytes",
  "Not compiled by the tests.",["ssz/ssz_container.cpp"],[("two-part assembly with running offset","ssz/ssz_container.cpp serialize_(), compute_fixed_length()")],["encoded bytes"])
p("C12","Container decoding inverts encoding and accepts nothing else",
  "Decoding the encoding of any container value succeeds and hands every field exactly its own encoding. A byte string is rejected unless its length matches the fixed part, the first offset equals the fixed part's length, offsets do not decrease and do not exceed the input, no bytes are left over, and every field accepts its slice.",
  ["inputs"],"all byte strings and all container field sequences",
  "Not compiled by the tests; malformed inputs are unbounded.",["ssz/ssz_container.cpp"],[("offset checks and slicing","ssz/ssz_container.cpp deserialize_()")],["return value","field values"])
p("C13","Decoding is memory safe and terminates on every byte string",
  "For every byte string, including empty, truncated and adversarial ones, decoding any basic value, bit field, vector, list or container terminates, reads only bytes of that input, writes only the decoded object, and reports failure by its return value.",
  ["inputs"],"all byte strings of any length, every decodable type",
  "Not compiled by the tests; needs adversarial inputs.",["ssz/ssz_container.cpp","common/containers.hpp","common/bitlist.cpp","common/bitvector.hpp","common/bytes.hpp","common/slot.hpp","common/boolean.hpp"],
  [("length checks before each access","deserialize() of every type")],["memory accesses","termination"])
p("C14","Lists and vectors of fixed-size elements encode and decode as concatenation",
  "The encoding of a vector or list of fixed-size elements is the concatenation of the element encodings in order. Decoding accepts exactly the byte strings that are such a concatenation of decodable elements - the exact count for vectors, a whole number of elements not above the limit for lists - and yields those elements in order, replacing any previous content.",
  ["inputs"],"all element counts, all element types and all byte strings",
  "Not compiled by the tests.",["common/containers.hpp"],[("element loops","VectorFixedSizedParts, ListFixedSizedParts serialize()/deserialize()")],["encoded bytes","decoded elements"])
p("C15","Lists of variable-size elements encode and decode with an offset table",
  "The encoding of a list of variable-size elements is one 4-byte little-endian offset per element, counted from the start of the list, followed by the element encodings in order; the empty list encodes as nothing. Decoding accepts exactly the byte strings with such a table (first offset a multiple of four inside the input, non-decreasing offsets within the input, count not above the limit, every element slice decodable) and yields the elements in order, replacing any previous content.",
  ["inputs"],"all element counts and byte strings below 2^32 bytes",
  "Not compiled by the tests.",["common/containers.hpp"],[("offset table handling","ListVariableSizedParts serialize()/deserialize()")],["encoded bytes","decoded elements"])
p("C16","Lists, vectors and bit fields hash as the SSZ specification defines",
  "The root of a vector is the merkleization of its packed bytes (integer elements) or of its element roots, the root of a bit vector that of its packed bits; the root of a list additionally pads to the list's limit, in chunks, and mixes in the number of elements; the root of a bit list packs its bits without the delimiter, pads to its bit limit in 256-bit chunks and mixes in the number of bits. Empty lists hash as a single zero chunk padded to the limit.",
  ["inputs"],"all element counts up to the limit, all limits, all element types",
  "Not compiled by the tests.",["common/containers.hpp","common/bitlist.cpp","ssz/ssz_container.cpp","common/slot.hpp"],[("limit in chunks, element roots, length mix-in","hash_tree(), hash_tree_x()")],["hash tree root"])
p("C17","Bit lists encode with a delimiter bit and decode strictly",
  "A bit list of n bits encodes to floor(n/8)+1 bytes holding bit i at bit i%8 of byte i/8, a single 1 bit at position n, and zeros above it. Decoding inverts this for every bit list within its limit and rejects every other byte string: empty input, a zero last byte, or more bits than the limit (when one is set). (Bit counts below 2^31.)",
  ["inputs"],"all bit counts and bit values, all byte strings",
  "Not compiled by the tests.",["common/bitlist.cpp","common/bitlist.hpp"],[("bit packing and delimiter handling","common/bitlist.cpp serialize(), deserialize()")],["encoded bytes","decoded bits"])
p("C18","Bit vectors encode to packed bits and decode strictly",
  "A bit vector of N bits encodes to ceil(N/8) bytes holding bit i at bit i%8 of byte i/8 and zeros in the unused high bits. Decoding inverts this for every bit vector and rejects every other byte string: a wrong length or a set unused bit. A default-constructed bit vector is all zero.",
  ["inputs"],"all N used by the library and a range of others, all bit values, all byte strings",
  "Not compiled by the tests.",["common/bitvector.hpp"],[("bit packing","Bitvector serialize(), deserialize()")],["encoded bytes","decoded bits"])
p("C19","Integers, booleans and byte arrays encode little-endian and decode strictly",
  "A 64-bit integer encodes to its 8 little-endian bytes, a boolean to one byte 0 or 1, and a fixed byte array to its bytes. Decoding inverts this, rejects every other length, and rejects boolean bytes other than 0 and 1; an integer hashes to its little-endian bytes padded with zeros.",
  ["inputs"],"all values and all byte strings",
  "Not compiled by the tests (the byte-array tests in the tree are not built here).",["common/slot.hpp","common/boolean.hpp","common/bytes.hpp","helpers/bytes_to_int.hpp"],[("fixed-size codecs","Slot, Boolean, Bytes")],["encoded bytes","decoded value"])
p("C20","Hex text represents byte arrays and bit fields faithfully",
  "The text form of a byte array or bit field is 0x followed by two lower-case hex digits per encoded byte in order, and reading that text back yields the same value. Hex digits of either case are read with their value, and text without the 0x prefix, of odd length for bit fields, or longer than the byte array is rejected with an error, as is text that encodes no bit list when a bit list is read; reading text never accesses memory outside it.",
  ["inputs"],"all byte values, all lengths, all strings",
  "Not compiled by the tests.",["helpers/bytes_to_int.hpp","helpers/bytes_to_string.hpp","common/bytes.hpp","common/bitlist.cpp","common/bitvector.hpp"],[("digit table and text conversion","helpers/bytes_to_int.hpp, to_string(), from_hexstring(), from_string()")],["text","parsed value"])
p("C21","Structured text form names every field once and reads it back",
  "For every consensus container, the structured (YAML) text form maps each specification field name to that field's own text form, and reading the text form assigns every field from the entry with its own name. Reading fails as soon as one field's entry cannot be read.",
  ["inputs"],"all container types and field values",
  "Not compiled by the tests.",["ssz/ssz_container.cpp","common/containers.hpp","beacon-chain/attestation.cpp","beacon-chain/beacon_block.hpp","beacon-chain/beacon_state.hpp","beacon-chain/deposits.hpp","beacon-chain/eth1data.hpp","beacon-chain/validator.cpp"],[("name-to-field lists","encode(), decode() of every container"),("generic mapping","ssz/ssz_container.cpp encode_(), decode_()")],["text form"])
p("C22","Two values compare equal exactly when they hold the same content",
  "For every basic value, bit field, vector, list and container type, two values of the same type (and limit) compare equal exactly when all their fields, elements and lengths are equal.",
  ["inputs"],"all pairs of values of every type",
  "Not compiled by the tests.",["ssz/ssz_container.hpp","common/containers.hpp","common/bytes.hpp","common/slot.hpp","common/boolean.hpp","common/bitlist.hpp","common/bitvector.hpp","beacon-chain/attestation.hpp","beacon-chain/beacon_block.hpp"],[("operator==","every type")],["result of the comparison"])
p("C23","Validator status predicates match the specification for every epoch",
  "A validator is active at an epoch exactly when activation_epoch <= epoch < exit_epoch, slashable exactly when it is not slashed and activation_epoch <= epoch < withdrawable_epoch, and eligible for the activation queue exactly when its activation-eligibility epoch is the far-future epoch and its effective balance is the maximum effective balance.",
  ["inputs"],"all 64-bit epochs and balances",
  "Not compiled by the tests.",["beacon-chain/validator.cpp","config/constants.hpp"],[("predicates","beacon-chain/validator.cpp")],["return value"])
p("C24","Slashable attestation pairs and well-formed indexed attestations are recognised",
  "Two attestation data are slashable exactly when they differ but have the same target epoch (double vote), or the first one's source epoch is earlier and its target epoch later than the second's (surround vote). An indexed attestation is well formed exactly when its attesting indices are non-empty and strictly increasing.",
  ["inputs"],"all pairs of attestation data, all index lists",
  "Not compiled by the tests.",["beacon-chain/attestation.cpp","beacon-chain/attestation.hpp"],[("slashability and validity predicates","beacon-chain/attestation.cpp")],["return value"])
p("C25","Integer logarithm and square root are exact",
  "The base-2 ceiling logarithm of every non-zero 64-bit value n is the least k with 2^k >= n, and 0 for n = 0 and n = 1. The integer square root of every 64-bit value x is the largest r with r*r <= x, whatever the rounding of the floating-point estimate it starts from.",
  ["inputs"],"all 64-bit values",
  "Not compiled by the tests; off-by-one errors at perfect squares and near 2^64 need specific values.",["helpers/math.hpp"],[("correction loops","helpers/math.hpp integer_squareroot()"),("log2ceil","helpers/math.hpp")],["return value"])
p("C26","Accessors and byte-array operations act on exactly the value they name",
  "Every read accessor of a beacon block, block body or beacon state yields the field of its own name and changes nothing; the size, iterators and data of a vector or list cover exactly its elements in order. For byte arrays, element access and iteration yield byte i at index i, default construction yields zeros, xor-assignment combines byte by byte and leaves the right operand unchanged, concatenation is the left bytes followed by the right bytes, and conversion to an integer takes the first byte as the lowest.",
  ["inputs"],"all fields of the three types, all byte array contents and sizes, all list lengths",
  "Not compiled by the tests.",["beacon-chain/beacon_block.hpp","beacon-chain/beacon_state.hpp","common/containers.hpp","common/bytes.hpp"],[("accessors","beacon-chain/beacon_block.hpp, beacon-chain/beacon_state.hpp"),("sequence interface","common/containers.hpp, common/bytes.hpp"),("operator^=, operator+, to_integer_little_endian","common/bytes.hpp")],["returned value"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
