#include "drv.hpp"
#include <iostream>
std::map<std::string, Op>& ops() { static std::map<std::string, Op> m; return m; }
void op(const std::string& name, std::string (*f)(const Args&)) { ops()[name] = f; }
BV unhex(const std::string& s) {
    BV r;
    if (s == "-") return r;
    r.resize(s.size() / 2);
    for (size_t i = 0; i < r.size(); i++) r[i] = std::stoi(s.substr(2 * i, 2), nullptr, 16);
    return r;
}
std::string hexn(const std::uint8_t* p, std::size_t n) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < n; i++) { r += d[p[i] >> 4]; r += d[p[i] & 15]; }
    return r.empty() ? "-" : r;
}
std::string txth(const std::string& s) { return hexn((const std::uint8_t*)s.data(), s.size()); }
bool dec(ssz::Container& o, const BV& b) {
    BV c(b.begin(), b.end());
    const BV& k = c;
    return o.deserialize(k.begin(), k.end());
}
std::string txt(const YAML::Node& n) {
    std::string r;
    switch (n.Type()) {
        case YAML::NodeType::Scalar: return n.Scalar();
        case YAML::NodeType::Sequence:
            r = "[";
            for (size_t i = 0; i < n.size(); i++) r += (i ? "," : "") + txt(n[i]);
            return r + "]";
        case YAML::NodeType::Map: {
            r = "{"; bool f = true;
            for (auto it = n.begin(); it != n.end(); ++it) { if (!f) r += ","; f = false; r += txt(it->first) + ":" + txt(it->second); }
            return r + "}";
        }
        case YAML::NodeType::Null: return "null";
        default: return "undef";
    }
}
void add_type(const std::string& name, Mk mk, Pair eq, Pair ne, std::string (*fresh)()) {
    auto& o = ops();
    o["dec " + name] = [mk](const Args& a) -> std::string {
        auto x = mk(a[0]);
        if (!dec(*x, unhex(a[1]))) return "0";
        return "1 " + hex(x->serialize());
    };
    o["dec2 " + name] = [mk](const Args& a) -> std::string {
        auto x = mk(a[0]);
        if (!dec(*x, unhex(a[1]))) return "x";
        if (!dec(*x, unhex(a[2]))) return "0";
        return "1 " + hex(x->serialize());
    };
    o["root " + name] = [mk](const Args& a) -> std::string {
        auto x = mk(a[0]);
        if (!dec(*x, unhex(a[1]))) return "0";
        return hex(x->hash_tree_root());
    };
    o["size " + name] = [mk](const Args& a) -> std::string { return std::to_string(mk(a[0])->get_ssz_size()); };
    o["eq " + name] = [mk, eq, ne](const Args& a) -> std::string {
        auto x = mk(a[0]); auto y = mk(a[0]);
        if (!dec(*x, unhex(a[1])) || !dec(*y, unhex(a[2]))) return "x";
        bool e = eq(*x, *y), n = ne(*x, *y);
        if (e == n) return "inconsistent";
        return e ? "1" : "0";
    };
    o["yaml " + name] = [mk](const Args& a) -> std::string {
        auto x = mk(a[0]);
        if (!dec(*x, unhex(a[1]))) return "0";
        return txth(txt(x->encode()));
    };
    // a[1]: previous content, a[2]: the text in hex
    o["ydec " + name] = [mk](const Args& a) -> std::string {
        auto x = mk(a[0]);
        if (a[1] != "none" && !dec(*x, unhex(a[1]))) return "x";
        auto b = unhex(a[2]);
        auto n = YAML::Load(std::string(b.begin(), b.end()));
        if (!x->decode(n)) return "0";
        return "1 " + hex(x->serialize());
    };
    o["new " + name] = [fresh](const Args& a) -> std::string { return fresh(); };
}
void add_text(const std::string& n, Mk mk, std::string (*to)(const ssz::Container&), void (*from)(ssz::Container&, const std::string&)) {
    ops()["totxt " + n] = [mk, to](const Args& a) -> std::string {
        auto x = mk("0"); if (!dec(*x, unhex(a[0]))) return "x";
        return txth(to(*x));
    };
    ops()["frtxt " + n] = [mk, from](const Args& a) -> std::string {
        auto b = unhex(a[0]);
        auto x = mk("0"); from(*x, std::string(b.begin(), b.end()));
        return hex(x->serialize());
    };
}
void reg_bytes(); void reg_bits(); void reg_lists(); void reg_vecs(); void reg_gen(); void reg_cont(); void reg_misc();
int main() {
    reg_bytes(); reg_bits(); reg_lists(); reg_vecs(); reg_gen(); reg_cont(); reg_misc();
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string op, t; is >> op >> t;
        Args a; std::string x;
        while (is >> x) a.push_back(x);
        std::string r;
        auto it = ops().find(op + " " + t);
        if (it == ops().end()) r = "unavailable";
        else {
            try { r = it->second(a); }
            catch (const std::exception& e) { r = "EXC " + std::string(e.what()); }
            catch (...) { r = "EXC ?"; }
        }
        for (auto& c : r) if (c == '\n') c = ' ';
        std::fputs((r + "\n").c_str(), stdout); std::fflush(stdout);
    }
}
