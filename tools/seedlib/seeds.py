import os
L = os.path.dirname(os.path.abspath(__file__))
S = {}
def rd(n): return open(os.path.join(L, n)).read()
FLAG = {'sha': 'sha_ni', 'avx2': 'avx2', 'avx': 'avx', 'sse': 'avx'}
def sha(id, prop, backend, mis, counts, needs, what, edits):
    S[id] = dict(property=prop, needs=needs, what=what, edits=edits, files={'sha_demo.cpp': rd('sha_demo.cpp'),
        'demo.sh': rd('sha_demo.sh').replace('NEEDFLAG', FLAG[backend]).replace('ARGS', '%s %d %s' % (backend, mis, counts))})
TREE = 'ssz/hashtree.cpp ssz/hasher.cpp'
CONT = TREE + ' ssz/ssz_container.cpp'
BEACON = CONT + ' common/bitlist.cpp beacon-chain/attestation.cpp beacon-chain/validator.cpp'
ALL = BEACON + ' beacon-chain/beacon_block.cpp beacon-chain/beacon_state.cpp'
HEAD = '#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#define private public\n#define protected public\n'
def cpp(id, prop, needs, what, edits, body, inc, src=TREE, flags='', preset='minimal'):
    pre = '#include <sstream>\n#include <vector>\n#include <string>\n#include <array>\n#include <iostream>\n#include <algorithm>\n#include <yaml-cpp/yaml.h>\n' + HEAD
    code = pre + ''.join('#include "%s"\n' % i for i in inc.split()) + \
        'static int bad; \n#define CHECK(c) do { if (!(c)) { std::printf("line %d: %s\\n", __LINE__, #c); bad = 1; } } while (0)\nnamespace eth {} using namespace eth;\n' + body
    S[id] = dict(property=prop, needs=needs, what=what, edits=edits, files={'demo.cpp': code,
        'demo.sh': rd('cpp_demo.sh').replace('SOURCES', src).replace('FLAGS', flags).replace('PRESET', preset)})
sha('c01-sse-count', 'C01', 'sse', 0, '1 255 256 300', 'a block count of 256 or more', 'the portable backend hashes only the count modulo 256',
    [('ssz/hasher.cpp', '    while (blocks) {', '    for (auto left = static_cast<std::uint8_t>(blocks); left; --left) {'), ('ssz/hasher.cpp', '        blocks--;\n', '')])

BC = 'common/bytes.hpp common/containers.hpp common/bitlist.hpp common/bitvector.hpp common/boolean.hpp beacon-chain/beacon_state.hpp'
cpp('c23-unsigned-window', 'C23', 'a validator whose exit epoch lies before its activation epoch', 'a validator that never was active counts as active',
    [('beacon-chain/validator.cpp', 'return activation_epoch <= epoch && epoch < exit_epoch;', 'return epoch - activation_epoch < exit_epoch - activation_epoch;')],
    'int main() { Validator v; v.activation_epoch = 10; v.exit_epoch = 5; for (uint64_t e : {0ull, 4ull, 5ull, 9ull, 10ull, 11ull, 1000ull}) CHECK(!v.is_active(Epoch(e)));\n'
    'v.exit_epoch = 20; CHECK(v.is_active(Epoch(10)) && v.is_active(Epoch(19)) && !v.is_active(Epoch(20)) && !v.is_active(Epoch(9))); return bad; }', BC, ALL)
cpp('c25-log2-double', 'C25', 'a value above 2^53 that is just above a power of two', 'the ceiling logarithm is one too small',
    [('helpers/math.hpp', 'return n ? CHAR_BIT * sizeof(n) - std::countl_zero(n - 1) : 0;', 'return n ? int(std::ceil(std::log2(static_cast<double>(n)))) : 0;')],
    'int main() { for (int k = 1; k < 64; k++) { CHECK(helpers::log2ceil(uint64_t(1) << k) == k); CHECK(helpers::log2ceil((uint64_t(1) << k) + 1) == k + 1); } CHECK(helpers::log2ceil(uint64_t(1)) == 0 && helpers::log2ceil(uint64_t(0)) == 0); return bad; }',
    'helpers/math.hpp')
cpp('c25-sqrt-top', 'C25', 'x close to 2^64, where the floating-point estimate is 2^32 and its square wraps to 0', 'the square root of the largest values is 2^32',
    [('helpers/math.hpp', 'while (r > sqrt_max || r * r > x) r--;', 'while (r * r > x) r--;')],
    'int main() { for (uint64_t x : {0ull, 1ull, 24ull, 25ull, 26ull, ~0ull, ~0ull - 5, (1ull << 52) + 1}) { auto r = helpers::integer_squareroot<uint64_t>(x); CHECK((unsigned __int128)r * r <= x && (unsigned __int128)(r + 1) * (r + 1) > x); } return bad; }',
    'helpers/math.hpp')
cpp('c24-first-duplicate', 'C24', 'an indexed attestation whose first two indices are equal', 'a duplicate at the front is accepted',
    [('beacon-chain/attestation.cpp', 'std::adjacent_find(attesting_indices.cbegin(), attesting_indices.cend())', 'std::adjacent_find(std::next(attesting_indices.cbegin()), attesting_indices.cend())')],
    'static bool v(std::vector<uint64_t> l) { IndexedAttestation a; for (auto i : l) a.attesting_indices.data().push_back(ValidatorIndex(i)); static BeaconState s; return a.is_valid(s); }\n'
    'int main() { CHECK(v({1}) && v({1, 2, 3}) && !v({}) && !v({3, 3, 4}) && !v({3, 4, 4}) && !v({2, 1})); return bad; }', BC, ALL)
cpp('c24-double-vote-index', 'C24', 'two attestations for the same target that differ only in their committee index', 'that double vote is not slashable',
    [('beacon-chain/attestation.cpp', 'if (*this != rhs && target.epoch == rhs.target.epoch) return true;',
      'if (!(slot == rhs.slot && beacon_block_root == rhs.beacon_block_root && source == rhs.source && target == rhs.target) && target.epoch == rhs.target.epoch) return true;')],
    'int main() { AttestationData a, b; a.index = 0; b.index = 0; CHECK(!a.is_slashable(b)); b.index = 7; CHECK(a.is_slashable(b)); b.index = 0; b.slot = 3; CHECK(a.is_slashable(b)); return bad; }', BC, ALL)

CODEC = """static std::vector<uint8_t> enc(const ssz::Container& c) { return c.serialize(); }
static bool dec(ssz::Container& c, const std::vector<uint8_t>& b) { return c.deserialize(b.begin(), b.end()); }
"""
cpp('c18-sticky-bits', 'C18', 'decoding into a bit vector that already has bits set', 'old bits survive the decode',
    [('common/bitvector.hpp', 'm_arr[constants::BITS_PER_BYTE * std::distance(it, i) + j] = *i & (1 << j);', 'm_arr[constants::BITS_PER_BYTE * std::distance(it, i) + j] |= bool(*i & (1 << j));')],
    CODEC + 'int main() { Bitvector<4> a; CHECK(dec(a, {5})); CHECK(enc(a) == std::vector<uint8_t>{5}); CHECK(dec(a, {2})); CHECK(enc(a) == std::vector<uint8_t>{2}); return bad; }', BC, ALL)
cpp('c19-bool-mask', 'C19', 'a boolean byte with a high bit set and bit 0 clear or set, above 0x7f', 'boolean bytes from 0x80 on are accepted',
    [('common/boolean.hpp', 'auto muint = helpers::to_integer_little_endian<std::uint8_t>(&*it);', 'auto muint = static_cast<std::int8_t>(helpers::to_integer_little_endian<std::uint8_t>(&*it));')],
    CODEC + 'int main() { Boolean a; CHECK(dec(a, {1}) && bool(a)); CHECK(dec(a, {0}) && !bool(a)); CHECK(!dec(a, {2}) && !dec(a, {0x7f}) && !dec(a, {0x80}) && !dec(a, {0xff})); return bad; }', BC, ALL)
cpp('c19-slot-wide', 'C19', 'a value of 2^32 or more', 'the upper half of a decoded integer is lost',
    [('common/slot.hpp', 'value_ = helpers::to_integer_little_endian<std::uint64_t>(&*it);', 'value_ = helpers::to_integer_little_endian<std::uint32_t>(&*it);')],
    CODEC + 'int main() { Slot s; CHECK(dec(s, {1, 2, 0, 0, 0, 0, 0, 0}) && uint64_t(s) == 0x201); CHECK(dec(s, {1, 2, 3, 4, 5, 6, 7, 8}) && uint64_t(s) == 0x0807060504030201ull); return bad; }', BC, ALL)

# --- hash trees --------------------------------------------------------------------------------------------------------------------------
TREEREF = """#include "ssz/hasher.hpp"
typedef ssz::Chunk Ch;
static Ch hh(const Ch& a, const Ch& b) { uint8_t s[64]; std::copy(a.begin(), a.end(), s); std::copy(b.begin(), b.end(), s + 32); Ch r; ssz::Hasher().hash_64b_blocks(r.data(), s, 1); return r; }
static Ch ref(std::vector<Ch> v, uint64_t limit) { Ch z{}; int d = 0; uint64_t l = limit ? limit : v.size(); while (d < 64 && (uint64_t(1) << d) < l) ++d;
  for (int i = 0; i < d; ++i) { std::vector<Ch> n; for (size_t j = 0; j < v.size(); j += 2) n.push_back(hh(v[j], j + 1 < v.size() ? v[j + 1] : z)); z = hh(z, z); v = n; } return v[0]; }
static std::vector<Ch> leaves(int n) { std::vector<Ch> v(n); for (int i = 0; i < n; ++i) for (int j = 0; j < 32; ++j) v[i][j] = i * 37 + j + 1; return v; }
static bool same(int n, uint64_t limit) { auto v = leaves(n); ssz::HashTree t(v, limit); return t.hash_tree_root() == ref(v, limit) && t.hash_tree().back() == ref(v, limit); }
"""
cpp('c07-odd-height', 'C07', 'a chunk count whose second or a later level is odd (9 chunks), not one that is odd at the first level only', 'a zero subtree of the wrong height pads odd levels',
    [('ssz/hashtree.cpp', 'if (dist % 2) *std::prev(last) = hash_2_chunks(*std::prev(first), zero_hash_array[height], hasher);', 'if (dist % 2) *std::prev(last) = hash_2_chunks(*std::prev(first), zero_hash_array[1], hasher);')],
    TREEREF + 'int main() { for (int n = 1; n < 70; ++n) CHECK(same(n, 0)); return bad; }', 'ssz/hashtree.hpp')
cpp('c07-limit-depth', 'C07', 'a limit that is not a power of two and has the same floor logarithm as a smaller depth', 'the depth is taken from the floor of the logarithm of the limit',
    [('ssz/hashtree.cpp', 'auto depth = (limit == 0) ? effective_depth : helpers::log2ceil(limit);', 'auto depth = (limit == 0) ? effective_depth : std::max(effective_depth, static_cast<int>(std::bit_width(limit)) - 1);'),
     ('ssz/hashtree.cpp', 'merkleize(chunks, hash_tree_, limit, hasher);', 'merkleize(chunks, hash_tree_, std::uint64_t(1) << depth, hasher);')],
    TREEREF + 'int main() { for (int n = 1; n < 18; ++n) for (uint64_t l : {16, 17, 31, 32, 33, 1000, 1024, 1025}) if (uint64_t(n) <= l) CHECK(same(n, l)); return bad; }', 'ssz/hashtree.hpp')
cpp('c08-node-count', 'C08', 'a chunk count just above a power of two plus more than a level of rounding (9 chunks)', 'the node vector is allocated too small and overrun',
    [('ssz/hashtree.cpp', 'std::bit_ceil(chunks.size()) - 1;', 'chunks.size() + (chunks.size() & 1 ? 1 : 0);')],
    TREEREF + 'int main() { for (int n = 1; n < 70; ++n) CHECK(same(n, 0)); return bad; }', 'ssz/hashtree.hpp', flags='-fsanitize=address')
cpp('c08-keeps-slack', 'C08', 'a list shorter than its limit, or one with an odd level: the node vector has more room than nodes', 'the last node of the tree is not the root when no zero subtrees were appended',
    [('ssz/hashtree.cpp', '    hash_tree.resize(std::distance(hash_tree.begin(), last));', '    if (vec.size() < limit) hash_tree.resize(std::distance(hash_tree.begin(), last));\n    else if (hash_tree.size() > vec.size()) hash_tree.pop_back();')],
    TREEREF + 'int main() { for (int n = 1; n < 70; ++n) { CHECK(same(n, 0)); CHECK(same(n, n)); CHECK(same(n, 100)); } return bad; }', 'ssz/hashtree.hpp')
cpp('c09-stale-padding', 'C09', 'a byte string longer than 32 bytes whose length is not a multiple of 32', 'the padding of the last chunk holds bytes of the chunk before',
    [('ssz/hashtree.cpp', '        for (auto it = vec.cbegin(); it < vec.end(); it += constants::BYTES_PER_CHUNK) {\n            Chunk chunk{};', '        Chunk chunk{};\n        for (auto it = vec.cbegin(); it < vec.end(); it += constants::BYTES_PER_CHUNK) {')],
    TREEREF + 'int main() { for (int n = 0; n < 200; ++n) { std::vector<uint8_t> b(n, 7); std::vector<Ch> v(n ? (n + 31) / 32 : 1); for (int i = 0; i < n; ++i) v[i / 32][i % 32] = 7; CHECK(ssz::HashTree(b).hash_tree_root() == ref(v, 0)); } return bad; }', 'ssz/hashtree.hpp')
cpp('c09-length-16', 'C09', 'a length of 2^32 or more', 'the length mixed in is cut to 32 bits',
    [('ssz/hashtree.cpp', 'auto length_bytes = eth::Bytes32(length);', 'auto length_bytes = eth::Bytes32(static_cast<std::uint32_t>(length));')],
    TREEREF + 'int main() { for (uint64_t n : {0ull, 1ull, 0xffffffffull, 0x100000000ull, ~0ull}) { auto v = leaves(3); ssz::HashTree t(v); t.mix_in(n); Ch c{}; for (int i = 0; i < 8; ++i) c[i] = n >> 8 * i; CHECK(t.hash_tree_root() == hh(ref(v, 0), c)); } return bad; }', 'ssz/hashtree.hpp')

cpp('c14-vec-offset-16', 'C14', 'a vector of more than 65536 bytes', 'elements past the first 64 KiB are decoded from wrapped offsets',
    [('common/containers.hpp', 'if (!m_arr[i].deserialize(it + i * T::ssz_size, it + (i + 1) * T::ssz_size)) return false;',
      '{\n                auto from = it + static_cast<std::uint16_t>(i * T::ssz_size);\n                if (!m_arr[i].deserialize(from, from + T::ssz_size)) return false;\n            }')],
    CODEC + 'static VectorFixedSizedParts<Root, 2048> a; static VectorFixedSizedParts<Root, 4096> b;\n'
    'int main() { std::vector<uint8_t> x(32 * 2048), y(32 * 4096); for (size_t i = 0; i < x.size(); ++i) x[i] = i * 31 + i / 1000; for (size_t i = 0; i < y.size(); ++i) y[i] = i * 17 + i / 777;\n'
    'CHECK(dec(a, x) && enc(a) == x); CHECK(dec(b, y) && enc(b) == y); return bad; }', BC, CONT)
cpp('c14-list-length-16', 'C14', 'a list encoding of 65536 bytes or more whose length taken modulo 2^16 and modulo the element size disagree', 'long lists whose length is no multiple of the element size are misread',
    [('common/containers.hpp', 'if (std::distance(it, end) % T::ssz_size) return false;', 'const std::uint16_t length = std::distance(it, end);\n        if (length % T::ssz_size) return false;')],
    CODEC + 'int main() { ListFixedSizedParts<Validator> l; std::vector<uint8_t> x(121 * 600); for (size_t i = 0; i < 600; ++i) for (int k = 0; k < 120; ++k) if (k != 88) x[i * 121 + k] = i + k;\n'
    'CHECK(dec(l, x) && l.size() == 600 && enc(l) == x); std::vector<uint8_t> y(x.begin(), x.begin() + 121 * 5); CHECK(dec(l, y) && l.size() == 5); y.pop_back(); CHECK(!dec(l, y)); return bad; }', BC, BEACON)
cpp('c15-offset-16', 'C15', 'a list of variable-size elements whose encoding passes 65536 bytes', 'offsets wrap at 65536',
    [('common/containers.hpp', 'std::uint32_t offset = size() * constants::BYTES_PER_LENGTH_OFFSET;', 'std::uint16_t offset = size() * constants::BYTES_PER_LENGTH_OFFSET;'),
     ('common/containers.hpp', 'Bytes4(offset).serialize()', 'Bytes4(std::uint32_t{offset}).serialize()')],
    CODEC + 'int main() { for (size_t n : {1, 3, 500}) { ListVariableSizedParts<PendingAttestation> l(1000), m(1000); for (size_t i = 0; i < n; ++i) { PendingAttestation p; p.proposer_index = i; l.m_arr.push_back(p); } auto x = enc(l); CHECK(dec(m, x) && m.size() == n && enc(m) == x); uint32_t o = 0; if (x.size() > 4) std::memcpy(&o, &x[4 * (n - 1)], 4); CHECK(o == 4 * n + (n - 1) * 149); } return bad; }', BC, BEACON)
cpp('c15-decreasing', 'C15', 'three or more elements of which a later offset goes back, to no less than the first', 'offsets that decrease are accepted, and an element range runs backwards',
    [('common/containers.hpp', 'if (current_offset < last_offset) return false;\n            if (std::distance(start, end)', 'if (current_offset < first_offset) return false;\n            if (std::distance(start, end)')],
    CODEC + 'struct Any : ssz::Container { std::vector<uint8_t> v; std::vector<uint8_t> serialize() const override { return v; } bool deserialize(ssz::SSZIterator a, ssz::SSZIterator b) override { v.clear(); if (a < b) v.assign(a, b); return true; } std::vector<ssz::Chunk> hash_tree() const override { return {}; } YAML::Node encode() const override { return {}; } bool decode(const YAML::Node&) override { return true; } bool operator==(const Any&) const = default; };\n'
    'int main() { ListVariableSizedParts<Any> l(9); CHECK(dec(l, {12,0,0,0, 13,0,0,0, 14,0,0,0, 7,8,9})); CHECK(l.size() == 3); CHECK(!dec(l, {12,0,0,0, 14,0,0,0, 13,0,0,0, 7,8,9})); CHECK(!dec(l, {12,0,0,0, 11,0,0,0, 13,0,0,0, 7,8,9})); return bad; }', BC, CONT)
cpp('c13-short-table', 'C13', 'a list of variable-size elements whose first offset lies beyond the end of the input', 'the offset table is read past the end of the input',
    [('common/containers.hpp', '        if (std::distance(start, end) < first_offset) return false;\n', '')],
    CODEC + 'int main() { ListVariableSizedParts<Attestation> l(128); for (unsigned n = 4; n < 12; ++n) for (unsigned o = 4; o < 40; ++o) { auto x = std::make_unique<std::vector<uint8_t>>(n, 0xff); (*x)[0] = o; (*x)[1] = (*x)[2] = (*x)[3] = 0; CHECK(!dec(l, *x)); } return bad; }', BC + ' memory', BEACON, flags='-fsanitize=address')
cpp('c13-table-step', 'C13', 'a first offset that is no multiple of four', 'the walk of the offset table steps over its end',
    [('common/containers.hpp', '            if (std::distance(start, it) + constants::BYTES_PER_LENGTH_OFFSET > first_offset) return false;\n', '            if (it > end) return false;\n')],
    CODEC + 'int main() { ListVariableSizedParts<Attestation> l(128); for (unsigned n = 5; n < 20; ++n) for (unsigned o = 4; o <= n; ++o) { auto x = std::make_unique<std::vector<uint8_t>>(n, 0); for (unsigned k = 0; k + 4 <= n; k += 4) (*x)[k] = n; (*x)[0] = o; CHECK(!dec(l, *x)); } return bad; }', BC + ' memory', BEACON, flags='-fsanitize=address')
cpp('c16-limit-floor', 'C16', 'a list of basic values whose limit does not fill whole chunks', 'the list is merkleized for a limit of too few chunks',
    [('common/containers.hpp', 'auto limit = (limit_ * T::ssz_size + constants::BYTES_PER_CHUNK - 1) / constants::BYTES_PER_CHUNK;', 'auto limit = limit_ / (constants::BYTES_PER_CHUNK / T::ssz_size) + (limit_ < constants::BYTES_PER_CHUNK / T::ssz_size);')],
    TREEREF + 'int main() { for (int lim : {4, 8, 16, 1, 2, 3, 5, 9, 17, 33}) for (int n = 0; n <= std::min(lim, 4); ++n) { ListFixedSizedParts<Slot> l(lim); std::vector<Ch> c(1); for (int i = 0; i < n; ++i) { l.data().push_back(Slot(i + 1)); c[0][8 * i] = i + 1; } Ch len{}; len[0] = n; CHECK(l.hash_tree_root() == hh(ref(c, (lim * 8 + 31) / 32), len)); } return bad; }', BC, BEACON)
cpp('c16-empty-list', 'C16', 'an empty list of composite elements with a limit above 1', 'an empty list hashes as if its limit were 1',
    [('common/containers.hpp', '            chunks.push_back(chunk);\n        }\n        ssz::HashTree ht{chunks, limit_};\n        ht.mix_in(m_arr.size());\n        return ht.hash_tree();\n    }\n    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_x(); }\n\n   public:\n    ListFixedSizedParts',
      '            chunks.push_back(chunk);\n        }\n        ssz::HashTree ht{chunks, m_arr.empty() ? 1 : limit_};\n        ht.mix_in(m_arr.size());\n        return ht.hash_tree();\n    }\n    std::vector<ssz::Chunk> hash_tree() const override { return hash_tree_x(); }\n\n   public:\n    ListFixedSizedParts')],
    TREEREF + 'int main() { for (int lim : {1, 2, 5, 1 << 24}) for (int n = 0; n <= std::min(lim, 3); ++n) { ListFixedSizedParts<Root> l(lim); std::vector<Ch> c(n ? n : 1); for (int i = 0; i < n; ++i) { Root r; r[0] = c[i][0] = i + 1; l.data().push_back(r); } Ch len{}; len[0] = n; CHECK(l.hash_tree_root() == hh(ref(c, lim), len)); } return bad; }', BC, BEACON)
cpp('c16-bit-limit', 'C16', 'a bit list limit that is not a multiple of 256', 'the bit list is merkleized for too few chunks',
    [('common/bitlist.cpp', 'auto limit = (limit_ + BITS_PER_BYTE * BYTES_PER_CHUNK - 1) / (BITS_PER_BYTE * BYTES_PER_CHUNK);', 'auto limit = (limit_ + BITS_PER_BYTE - 1) / (BITS_PER_BYTE * BYTES_PER_CHUNK);')],
    TREEREF + 'int main() { for (int lim : {256, 512, 2048, 257, 300, 1025}) { Bitlist b(lim); std::vector<uint8_t> x{0x05, 0x03}; b.deserialize(x.begin(), x.end()); std::vector<Ch> c(1); c[0][0] = 5; c[0][1] = 1; Ch len{}; len[0] = 9; CHECK(b.hash_tree_root() == hh(ref(c, (lim + 255) / 256), len)); } return bad; }', BC, BEACON)
cpp('c20-upper-F', 'C20', 'an upper-case hexadecimal digit F', 'the digit F reads as 14',
    [('helpers/bytes_to_int.hpp', "tab['F'] = 15;", "tab['F'] = tab['E'];")],
    'int main() { for (int i = 0; i < 256; ++i) { char l[8], u[8]; std::snprintf(l, 8, "0x%02x", i); std::snprintf(u, 8, "0x%02X", i); CHECK(Bytes<1>(std::string_view(l))[0] == i); CHECK(Bytes<1>(std::string_view(u))[0] == i); } return bad; }', BC, CONT)
cpp('c20-one-digit-more', 'C20', 'a string of one digit more than the type has room for', 'such a string is accepted and written past the end',
    [('common/bytes.hpp', 'if (str.size() > 2 * N + 2) throw', 'if (str.size() / 2 > N + 1) throw')],
    'template <size_t N> static bool ok(const std::string& s) { try { Bytes<N> b{std::string_view(s)}; return true; } catch (const std::exception&) { return false; } }\n'
    'int main() { for (int n = 0; n < 12; ++n) { CHECK(ok<4>("0x" + std::string(n, \'7\')) == (n <= 8)); CHECK(ok<1>("0x" + std::string(n, \'7\')) == (n <= 2)); } return bad; }', BC, CONT)
cpp('c21-swapped-names', 'C21', 'attestation data whose source and target differ', 'the YAML fields source and target are swapped on the way out and in',
    [('beacon-chain/attestation.cpp', '{"source", &source}', '{"source", &target}', 2), ('beacon-chain/attestation.cpp', '{"target", &target}', '{"target", &source}', 2)],
    'int main() { AttestationData d; d.slot = 1; d.index = 2; d.source.epoch = Epoch(3); d.target.epoch = Epoch(4); auto n = d.encode(); CHECK(n["source"]["epoch"].as<uint64_t>() == 3); CHECK(n["target"]["epoch"].as<uint64_t>() == 4); AttestationData e; CHECK(e.decode(n) && e == d); return bad; }', BC, ALL)
cpp('c22-fork-field', 'C22', 'two forks that differ only in the previous version', 'such forks compare equal',
    [('common/containers.hpp', 'bool operator==(const Fork &) const = default;', 'bool operator==(const Fork &other) const {\n        return epoch == other.epoch && current_version == other.current_version;\n    }')],
    'int main() { Fork a, b; a.epoch = Epoch(1); b = a; CHECK(a == b); b.previous_version[0] = 1; CHECK(a != b); b = a; b.current_version[3] = 1; CHECK(a != b); b = a; b.epoch = Epoch(2); CHECK(a != b); return bad; }', BC, BEACON)
cpp('c22-vector-first', 'C22', 'a byte vector that differs from the bytes in the first byte only', 'the two compare equal',
    [('common/bytes.hpp', 'for (int i = 0; i < N; ++i)\n            if (m_arr[i] != r[i]) return false;\n        return true;', 'int i = N;\n        while (--i)\n            if (m_arr[i] != r[i]) return false;\n        return true;')],
    'int main() { for (int k = 0; k < 48; ++k) { Bytes<48> b; std::vector<uint8_t> v(48); CHECK(b == v); v[k] = 1; CHECK(!(b == v)); } CHECK(!(Bytes<4>() == std::vector<uint8_t>(5))); return bad; }', BC, CONT)
cpp('c10-swapped-checkpoints', 'C10', 'a state whose two justified checkpoints differ', 'the previous and current justified checkpoints are exchanged in the encoding and the root',
    [('beacon-chain/beacon_state.hpp', '&previous_justified_checkpoint_,\n                           &current_justified_checkpoint_,', '&current_justified_checkpoint_,\n                           &previous_justified_checkpoint_,', 2),
     ('beacon-chain/beacon_state.hpp', '&previous_justified_checkpoint_,\n                             &current_justified_checkpoint_,', '&current_justified_checkpoint_,\n                             &previous_justified_checkpoint_,')],
    CODEC + 'int main() { static BeaconState s; s.previous_justified_checkpoint_.epoch = Epoch(0x11); s.current_justified_checkpoint_.epoch = Epoch(0x22); auto x = enc(s); size_t n = 0; std::vector<int> pos; auto f = [&](uint8_t v) { for (size_t i = 0; i < x.size(); ++i) if (x[i] == v) return long(i); return -1l; }; CHECK(f(0x11) >= 0 && f(0x22) == f(0x11) + 40); static BeaconState t; CHECK(dec(t, x) && t == s); return bad; }', BC, ALL)
cpp('c10-eth1-short', 'C10', 'a deposit that is encoded inside a container or a list, which takes its length from the declared fixed size', 'the fixed size the type declares is not the length of what it encodes',
    [('beacon-chain/deposits.hpp', 'ssz_size = 184', 'ssz_size = 88')],
    CODEC + 'int main() { DepositData d; CHECK(enc(d).size() == d.get_ssz_size()); return bad; }', BC + ' beacon-chain/deposits.hpp', ALL)
cpp('c11-offset-16', 'C11', 'a container with a variable-size part that starts 65536 bytes or more into the encoding', 'the offset written is cut to 16 bits',
    [('ssz/ssz_container.cpp', 'eth::Bytes4 offset(fixed_length);', 'eth::Bytes4 offset(static_cast<std::uint16_t>(fixed_length));')],
    CODEC + 'int main() { static BeaconBlockBody b; b.deposits_.m_arr.resize(16); for (int i = 0; i < 128; ++i) { Attestation a; std::vector<uint8_t> x(257, 0xff); a.aggregation_bits.deserialize(x.begin(), x.end()); b.attestations_.m_arr.push_back(a); } for (int i = 0; i < 2; ++i) { AttesterSlashing s; for (int k = 0; k < 2048; ++k) s.attestation_1.attesting_indices.data().push_back(ValidatorIndex(k)); s.attestation_2 = s.attestation_1; b.attester_slashings_.m_arr.push_back(s); } SignedVoluntaryExit e; b.voluntary_exits_.data().push_back(e);\n'
    'auto x = enc(b); CHECK(x.size() > 65536); static BeaconBlockBody c; CHECK(dec(c, x)); CHECK(enc(c) == x); return bad; }', BC + ' beacon-chain/beacon_block.hpp', ALL)
cpp('c12-order', 'C12', 'a container with three or more variable-size parts, of which a later offset goes back', 'decreasing offsets are accepted',
    [('ssz/ssz_container.cpp', 'if (current_offset < last_offset) return false;', 'if (current_offset < fixed_length) return false;')],
    CODEC + 'struct Any : ssz::Container { std::vector<uint8_t> v; std::vector<uint8_t> serialize() const override { return v; } bool deserialize(ssz::SSZIterator a, ssz::SSZIterator b) override { v.clear(); if (a < b) v.assign(a, b); return true; } std::vector<ssz::Chunk> hash_tree() const override { return {}; } YAML::Node encode() const override { return {}; } bool decode(const YAML::Node&) override { return true; } };\n'
    'struct Three : Any { Any a, b, c; std::vector<uint8_t> serialize() const override { return serialize_({&a, &b, &c}); } bool deserialize(ssz::SSZIterator x, ssz::SSZIterator y) override { return deserialize_(x, y, {&a, &b, &c}); } };\n'
    'int main() { Three l; CHECK(dec(l, {12,0,0,0, 13,0,0,0, 14,0,0,0, 7,8,9})); CHECK(!dec(l, {12,0,0,0, 14,0,0,0, 13,0,0,0, 7,8,9})); CHECK(!dec(l, {12,0,0,0, 11,0,0,0, 13,0,0,0, 7,8,9})); return bad; }', BC, CONT)
cpp('c12-gap', 'C12', 'a first offset that points beyond the fixed part', 'bytes between the fixed part and the first variable part are ignored',
    [('ssz/ssz_container.cpp', '} else if (current_offset != fixed_length)', '} else if (current_offset < fixed_length)')],
    CODEC + 'int main() { Attestation a; auto x = enc(a); CHECK(dec(a, x)); auto y = x; y.insert(y.begin() + 228, 0xee); y[0]++; CHECK(!dec(a, y)); y = x; y[0]--; CHECK(!dec(a, y)); y = x; y.push_back(0); CHECK(!dec(a, y)); return bad; }', BC, ALL)
cpp('c12-last-part-first', 'C12', 'two cooperating limits: a variable part whose offset equals the length of the input', 'an offset one past the end of the input is accepted',
    [('ssz/ssz_container.cpp', 'if (std::distance(begin, end) < current_offset) return false;', 'if (std::distance(begin, end) + 1 < current_offset) return false;')],
    CODEC + 'struct Any : ssz::Container { std::vector<uint8_t> v; std::vector<uint8_t> serialize() const override { return v; } bool deserialize(ssz::SSZIterator a, ssz::SSZIterator b) override { v.clear(); if (a < b) v.assign(a, b); return true; } std::vector<ssz::Chunk> hash_tree() const override { return {}; } YAML::Node encode() const override { return {}; } bool decode(const YAML::Node&) override { return true; } };\n'
    'struct Two : Any { Any a, b; std::vector<uint8_t> serialize() const override { return serialize_({&a, &b}); } bool deserialize(ssz::SSZIterator x, ssz::SSZIterator y) override { return deserialize_(x, y, {&a, &b}); } };\n'
    'int main() { Two l; CHECK(dec(l, {8,0,0,0, 9,0,0,0, 7})); CHECK(!dec(l, {8,0,0,0, 10,0,0,0, 7})); CHECK(!dec(l, {8,0,0,0, 11,0,0,0, 7})); return bad; }', BC, CONT)
cpp('c06-bmi2-for-avx2', 'C06', 'a CPU (or a virtual machine) that reports BMI2 but neither AVX2 nor the SHA extensions', 'the AVX2 implementation is chosen there',
    [('ssz/hasher.cpp', 'if (b & bit_AVX2) ret = ret | IMPL::AVX2;', 'if (b & (bit_AVX2 | bit_BMI2)) ret = ret | IMPL::AVX2;')],
    '#include "ssz/hasher.hpp"\nextern "C" void sha256_8_avx2(unsigned char*, const unsigned char*, std::size_t);\n'
    'int main(int c, char** v) { unsigned char in[640] = {1}, out[320]; ssz::Hasher h; h.hash_64b_blocks(out, in, 10); CHECK(__builtin_cpu_supports("avx2") || h._hash_64b_blocks != sha256_8_avx2);\n'
    'if (c == 1) for (const char* m : {"max", "max,-sha-ni", "max,-sha-ni,-avx2", "max,-sha-ni,-avx2,-bmi2"}) { int r = std::system((std::string("qemu-x86_64 -cpu ") + m + " " + v[0] + " x").c_str()); CHECK(r == 0); } return bad; }', 'ssz/hasher.hpp')
cpp('c17-byte-order', 'C17', 'a bit list of more than eight bits whose bytes are no palindromes', 'the bits of full bytes are read from the top',
    [('common/bitlist.cpp', 'm_arr.push_back((*i >> j) & 1);', 'm_arr.push_back(*i & (0x80 >> j));'),
     ('common/bitlist.cpp', '        ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i % constants::BITS_PER_BYTE);\n    ret.back()', '        ret[i / constants::BITS_PER_BYTE] |= m_arr[i] << (i / constants::BITS_PER_BYTE < ret.size() - 1 ? constants::BITS_PER_BYTE - 1 - i % constants::BITS_PER_BYTE : i % constants::BITS_PER_BYTE);\n    ret.back()')],
    CODEC + 'int main() { Bitlist b(64), c(64); std::vector<uint8_t> x{0x13, 0x75, 0x09}; CHECK(dec(b, x) && enc(b) == x && b.size() == 19); for (int i = 0; i < 19; ++i) CHECK(b.m_arr[i] == bool(x[i / 8] >> i % 8 & 1)); return bad; }', BC, BEACON)
cpp('c17-int-index', 'C17', 'a bit list whose length is a multiple of eight', 'the delimiter byte is missing when the bits fill whole bytes',
    [('common/bitlist.cpp', 'std::vector<std::uint8_t> ret(m_arr.size() / constants::BITS_PER_BYTE + 1, 0);', 'std::vector<std::uint8_t> ret(std::max<std::size_t>(1, (m_arr.size() + constants::BITS_PER_BYTE - 1) / constants::BITS_PER_BYTE), 0);')],
    CODEC + 'int main() { Bitlist b(64); for (std::vector<uint8_t> x : {std::vector<uint8_t>{1}, {0x80}, {0xff}, {0x55, 1}, {0xff, 0x01}, {0x12, 0x34, 0x01}, {0x12, 0x34, 0x81}}) CHECK(dec(b, x) && enc(b) == x); return bad; }', BC, BEACON)
cpp('c26-xor-tail', 'C26', 'a byte array whose size is not a multiple of eight', 'xor-assignment leaves the last bytes as they were',
    [('common/bytes.hpp', 'for (int i = 0; i < N; i++) m_arr[i] ^= b[i];', '''constexpr std::size_t step = N < 8 ? 1 : 8;
        for (std::size_t i = 0; i + step <= N; i += step)
            for (std::size_t j = i; j < i + step; ++j) m_arr[j] ^= b[j];''')],
    'template <size_t N> static void t() { Bytes<N> a, b; for (size_t i = 0; i < N; ++i) { a[i] = 3 * i + 1; b[i] = 7 * i + 200; } auto c = b; a ^= b; for (size_t i = 0; i < N; ++i) { CHECK(a[i] == (uint8_t(3 * i + 1) ^ uint8_t(7 * i + 200))); CHECK(b[i] == c[i]); } }\n'
    'int main() { t<1>(); t<4>(); t<20>(); t<32>(); t<48>(); t<96>(); return bad; }', BC, CONT)
cpp('c26-concat-size', 'C26', 'concatenating byte arrays of different sizes', 'the right bytes are put at the wrong place',
    [('common/bytes.hpp', 'ret.begin() + N);', 'ret.begin() + std::min(N, M));')],
    'template <size_t N, size_t M> static void t() { Bytes<N> a; Bytes<M> b; for (size_t i = 0; i < N; ++i) a[i] = i + 1; for (size_t i = 0; i < M; ++i) b[i] = 100 + i; auto c = a + b; for (size_t i = 0; i < N + M; ++i) CHECK(c[i] == (i < N ? i + 1 : 100 + i - N)); }\n'
    'int main() { t<32, 32>(); t<4, 28>(); t<28, 4>(); t<1, 3>(); return bad; }', BC, CONT)
cpp('c26-state-roots', 'C26', 'a state whose block roots and state roots differ', 'the accessor of the state roots yields the block roots',
    [('beacon-chain/beacon_state.hpp', 'state_roots() const { return state_roots_; }', 'state_roots() const { return block_roots_; }')],
    'int main() { static BeaconState s; s.block_roots_.m_arr[3][0] = 1; s.state_roots_.m_arr[5][0] = 2; CHECK(&s.state_roots() == &s.state_roots_); CHECK(&s.block_roots() == &s.block_roots_); CHECK(&s.randao_mixes() == &s.randao_mixes_); return bad; }', BC, ALL)
cpp('c26-list-end', 'C26', 'a list whose iterators are asked for while elements were removed from it earlier', 'the end iterator goes by the capacity of the list instead of its size',
    [('common/containers.hpp', 'constexpr typename std::vector<T>::const_iterator cend() const noexcept { return m_arr.cend(); }\n    std::vector<T>& data()', 'constexpr typename std::vector<T>::const_iterator cend() const noexcept { return m_arr.cbegin() + m_arr.capacity(); }\n    std::vector<T>& data()')],
    'int main() { ListFixedSizedParts<Slot> l; for (int i = 0; i < 4; ++i) { l.data().push_back(Slot(i)); } l.data().shrink_to_fit(); CHECK(l.cend() - l.cbegin() == 4); l.data().resize(2); CHECK(l.cend() - l.cbegin() == 2); CHECK(l.end() - l.begin() == 2); return bad; }', BC, ALL)
cpp('c19-int-shift', 'C19', 'an integer with a byte from 0x80 on in the fourth place, or any value of 2^32 and more', 'integers are put together in 32-bit arithmetic',
    [('helpers/bytes_to_int.hpp', 'auto ptr = reinterpret_cast<const T *>(arr);\n    return *ptr;', 'T ret = 0;\n    for (std::size_t i = 0; i < sizeof(T); ++i) ret |= static_cast<T>(arr[i] << (8 * (i % 4))) << (i < 4 ? 0 : 16) << (i < 4 ? 0 : 16);\n    return ret;')],
    'int main() { for (uint64_t x : {0ull, 1ull, 0x7fffffffull, 0x80000000ull, 0xff00000000ull, 0x8000000080000000ull, ~0ull, 0x0123456789abcdefull}) { uint8_t b[8]; std::memcpy(b, &x, 8); CHECK(helpers::to_integer_little_endian<uint64_t>(b) == x); std::vector<uint8_t> v(b, b + 8); Slot s; CHECK(s.deserialize(v.begin(), v.end()) && uint64_t(s) == x); } return bad; }', BC, ALL)
cpp('c21-last-wins', 'C21', 'a field that cannot be read, other than the last one', 'reading reports success although a field was not read',
    [('ssz/ssz_container.cpp', 'return std::all_of(parts.begin(), parts.end(),\n                       [&node](Part part) { return part.second->decode(node[part.first]); });',
      'bool ok = true;\n    for (const auto &part : parts) ok = part.second->decode(node[part.first]);\n    return ok;')],
    'int main() { Checkpoint c; c.epoch = Epoch(3); auto n = c.encode(); Checkpoint d; CHECK(d.decode(n) && d == c); n["epoch"] = "three"; CHECK(!d.decode(n)); return bad; }', BC, ALL)
cpp('c21-signed', 'C21', 'an integer of 2^63 and more, such as the far-future epoch', 'such an integer is written as a negative number or cannot be read',
    [('common/slot.hpp', 'YAML::convert<std::uint64_t>::encode(value_)', 'YAML::convert<std::int64_t>::encode(static_cast<std::int64_t>(value_))')],
    'int main() { for (uint64_t x : {0ull, 5ull, (1ull << 63) - 1, 1ull << 63, ~0ull}) { Slot s(x), t; auto n = s.encode(); CHECK(n.Scalar() == std::to_string(x)); CHECK(t.decode(n) && uint64_t(t) == x); } return bad; }', BC, ALL)
cpp('c23-balance-above', 'C23', 'an effective balance above the maximum', 'such a validator counts as eligible for the activation queue',
    [('beacon-chain/validator.cpp', 'effective_balance  == constants::MAX_EFFECTIVE_BALANCE;', '!(effective_balance < constants::MAX_EFFECTIVE_BALANCE);')],
    'int main() { Validator v; v.activation_eligibility_epoch = constants::FAR_FUTURE_EPOCH; v.effective_balance = constants::MAX_EFFECTIVE_BALANCE; CHECK(v.is_eligible_for_activation_queue()); v.effective_balance = constants::MAX_EFFECTIVE_BALANCE + 1; CHECK(!v.is_eligible_for_activation_queue()); v.effective_balance = 5; CHECK(!v.is_eligible_for_activation_queue()); return bad; }', BC, ALL)
cpp('c08-zero-table', 'C08', 'a limit above 2^42', 'the zero-subtree table is read past its end',
    [('ssz/hashtree.cpp', 'const auto ZERO_HASH_DEPTH{64};', 'const auto ZERO_HASH_DEPTH{42};')],
    'int main() { std::vector<ssz::Chunk> c(3); for (int i = 0; i < 3; ++i) c[i][0] = i + 1; for (int k : {2, 10, 41, 42, 43, 44, 50, 63}) { ssz::HashTree t(c, 1ull << k); ssz::Hasher h; ssz::Chunk z{}, r = t.hash_tree().back(), w[2], o; w[0] = c[0]; w[1] = c[1]; h.hash_64b_blocks(o.data(), w[0].data(), 1); auto l = o; w[0] = c[2]; w[1] = z; h.hash_64b_blocks(o.data(), w[0].data(), 1); for (int d = 1; d < k; ++d) { w[0] = z; w[1] = z; h.hash_64b_blocks(z.data(), w[0].data(), 1); w[0] = d == 1 ? l : l; w[1] = d == 1 ? o : z; h.hash_64b_blocks(l.data(), w[0].data(), 1); } CHECK(r == l); } return bad; }',
    'ssz/hasher.hpp ssz/hashtree.hpp', TREE)
