#include "drv.hpp"
#include "common/bytes.hpp"
#include "ssz/hashtree.hpp"
using namespace eth;
// a part whose size, encoding, root and verdict the test chooses
struct Prt : ssz::Container {
    std::size_t sz = 0; BV content; bool acc = true; ssz::Chunk rt{}; std::string name;
    const std::uint8_t* base = nullptr; long off = -1, len = -1; int calls = 0;
    std::size_t get_ssz_size() const override { return sz; }
    BV serialize() const override { return content; }
    bool deserialize(ssz::SSZIterator it, ssz::SSZIterator end) override {
        calls++; len = end - it; off = len || it != ssz::SSZIterator() ? &*it - base : 0;
        content.clear();
        for (auto i = it; i != end; ++i) content.push_back(*i);
        return acc;
    }
    std::vector<ssz::Chunk> hash_tree() const override { return {ssz::Chunk{}, rt}; }
    YAML::Node encode() const override { return YAML::Node(hex(content)); }
    bool decode(const YAML::Node& n) override { calls++; if (!n.IsScalar()) return false; content = unhex(n.Scalar()); return acc; }
};
static std::vector<std::unique_ptr<Prt>> parts(const Args& a, size_t from) {
    // f:<size>:<acc>:<hex>:<root>:<name>
    std::vector<std::unique_ptr<Prt>> r;
    for (size_t i = from; i < a.size(); i++) {
        std::istringstream is(a[i]); std::string k, s, ac, h, rt, nm;
        std::getline(is, k, ':'); std::getline(is, s, ':'); std::getline(is, ac, ':'); std::getline(is, h, ':'); std::getline(is, rt, ':'); std::getline(is, nm, ':');
        auto p = std::make_unique<Prt>();
        p->sz = k == "f" ? std::stoul(s) : 0; p->acc = ac != "0"; if (!h.empty()) p->content = unhex(h);
        if (!rt.empty()) { auto b = unhex(rt); std::copy(b.begin(), b.end(), p->rt.begin()); }
        p->name = nm;
        r.push_back(std::move(p));
    }
    return r;
}
void reg_gen() {
    ops()["gser ."] = [](const Args& a) -> std::string {
        auto ps = parts(a, 0); std::vector<const ssz::Container*> v; for (auto& p : ps) v.push_back(p.get());
        return hex(ssz::Container::serialize_(v));
    };
    ops()["gdes ."] = [](const Args& a) -> std::string {
        auto ps = parts(a, 1); std::vector<ssz::Container*> v;
        BV b = unhex(a[0]); BV c(b.begin(), b.end()); const BV& k = c;
        for (auto& p : ps) { p->base = k.data(); v.push_back(p.get()); }
        bool r = ssz::Container::deserialize_(k.begin(), k.end(), v);
        std::string s = r ? "1" : "0";
        for (auto& p : ps) s += " " + std::to_string(p->off) + ":" + std::to_string(p->len) + ":" + std::to_string(p->calls);
        return s;
    };
    ops()["gtree ."] = [](const Args& a) -> std::string {
        auto ps = parts(a, 0); std::vector<const ssz::Container*> v; for (auto& p : ps) v.push_back(p.get());
        auto t = ssz::Container::hash_tree_(v);
        return t.empty() ? "empty" : hex(t.back());
    };
    ops()["genc ."] = [](const Args& a) -> std::string {
        auto ps = parts(a, 0); std::vector<ssz::ConstPart> v; for (auto& p : ps) v.push_back({p->name, p.get()});
        return txth(txt(ssz::Container::encode_(v)));
    };
    ops()["gdec ."] = [](const Args& a) -> std::string {
        auto ps = parts(a, 1); std::vector<ssz::Part> v; for (auto& p : ps) v.push_back({p->name, p.get()});
        auto b = unhex(a[0]);
        bool r = ssz::Container::decode_(YAML::Load(std::string(b.begin(), b.end())), v);
        std::string s = r ? "1" : "0";
        for (auto& p : ps) s += " " + hex(p->content);
        return s;
    };
    ops()["ht chunks"] = [](const Args& a) -> std::string {
        auto b = unhex(a[1]); std::vector<ssz::Chunk> c(b.size() / 32);
        for (size_t i = 0; i < c.size(); i++) std::copy(b.begin() + 32 * i, b.begin() + 32 * i + 32, c[i].begin());
        ssz::HashTree t(c, std::stoull(a[0]));
        if (a.size() > 2) t.mix_in(std::stoull(a[2]));
        auto tr = t.hash_tree();
        if (tr.empty() || tr.back() != t.hash_tree_root()) return "last node is not the root";
        return hex(t.hash_tree_root());
    };
    ops()["ht bytes"] = [](const Args& a) -> std::string {
        auto b = unhex(a[1]);
        ssz::HashTree t(b, std::stoull(a[0]));
        if (a.size() > 2) t.mix_in(std::stoull(a[2]));
        return hex(t.hash_tree_root());
    };
    // a large tree: n chunks, chunk i holds i*seed as little endian
    ops()["ht gen"] = [](const Args& a) -> std::string {
        std::uint64_t n = std::stoull(a[1]), sd = std::stoull(a[2]);
        std::vector<ssz::Chunk> c(n);
        for (size_t i = 0; i < n; i++) { c[i] = {}; std::uint64_t v = i * sd + 1; std::memcpy(c[i].data(), &v, 8); }
        ssz::HashTree t(c, std::stoull(a[0]));
        return hex(t.hash_tree_root());
    };
}
