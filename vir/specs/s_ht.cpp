#include "vir.hpp"
#include <stdexcept>
#include "ssz/hashtree.cpp"
using namespace ssz;
typedef std::vector<Chunk> VC;
typedef std::vector<uint8_t> V;

// HashTree(chunks, limit): defined exactly for 1 <= n (<= limit), and then the SSZ root
SPEC spec_tree() {
    Raw<VC> v; vir_hook1("chunks", &*v);
    uint64_t n = vir_u64("n"), limit = vir_u64("limit");
    vir_assume(n >= 1 && (limit == 0 || n <= limit));
    HashTree t(*v, limit);
    VC nodes = t.hash_tree();
    Chunk root = t.hash_tree_root(), last = nodes.back();
    vir_hook1("root", &root);
    vir_hook1("root", &last);
}
SPEC spec_tree_default() {
    Raw<VC> v; vir_hook1("chunks", &*v);
    uint64_t n = vir_u64("n"); vir_assume(n >= 1);
    HashTree t(*v);
    Chunk root = t.hash_tree_root();
    vir_hook1("root", &root);
}
SPEC spec_tree_error() {
    Raw<VC> v; vir_hook1("chunks", &*v);
    uint64_t n = vir_u64("n"), limit = vir_u64("limit");
    vir_assume(n == 0 || (limit != 0 && n > limit));
    bool thrown = false;
    try { HashTree t(*v, limit); } catch (const std::exception&) { thrown = true; }
    ASSERT(thrown, "HashTree::HashTree/ensures-empty-or-too-many-chunks-is-an-error");
}
// HashTree(bytes, limit): the tree over the packed bytes
SPEC spec_pack() {
    Raw<V> in; vir_bytes(&*in, "in");
    VC r = pack_and_pad(*in);
    uint64_t n = in->size(), q = vir_u64("q");
    ASSERT(r.size() == (n == 0 ? 1 : (n + 31) / 32), "pack_and_pad/ensures-ceil(n/32)-chunks-at-least-one");
    vir_assume(q < r.size());
    Chunk c = r[q];
    unsigned b = unsigned(vir_lt(32, "b"));
    ASSERT(c[b] == (32 * q + b < n ? (*in)[32 * q + b] : 0), "pack_and_pad/ensures-bytes-in-order-zero-padded");
    ASSERT(in->size() == n, "pack_and_pad/assigns-nothing");
}
SPEC spec_bytes_tree() {
    Raw<V> in; vir_bytes(&*in, "in");
    uint64_t limit = vir_u64("limit");
    HashTree t(*in, limit);
    vir_hook2("delegated", &*in, limit);
}
SPEC spec_mix() {
    Raw<HashTree> t; vir_hook1("nodes", &t->hash_tree_);
    uint64_t m = vir_u64("m"), len = vir_u64("len"), q = vir_u64("q");
    vir_assume(m >= 1);
    t->mix_in(len);
    Chunk r = t->hash_tree_root();
    ASSERT(t->hash_tree_.size() == m + 1, "HashTree::mix_in/ensures-one-more-node");
    vir_hook2("mixed", &r, len);
    vir_assume(q < m);
    vir_hook2("node", t->hash_tree_[q].data(), q);
}
