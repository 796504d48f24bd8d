// Replay driver: executes operations of the real library on inputs read from stdin, one line per operation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include "ssz/ssz.hpp"
#include "ssz/ssz_container.hpp"
#include "yaml-cpp/yaml.h"
typedef std::vector<std::uint8_t> BV;
typedef std::vector<std::string> Args;
using Op = std::function<std::string(const Args&)>;
std::map<std::string, Op>& ops();
void op(const std::string& name, std::string (*f)(const Args&));
struct Reg { Reg(const std::string& n, Op f) { ops()[n] = f; } };

BV unhex(const std::string& s);
std::string hexn(const std::uint8_t* p, std::size_t n);
template <class V> std::string hex(const V& v) { return hexn(v.data(), v.size()); }
std::string txt(const YAML::Node& n);
std::string txth(const std::string& s);
// decodes from an exactly sized heap copy, so that the sanitizer sees every access outside the input
bool dec(ssz::Container& o, const BV& b);
using Mk = std::function<std::unique_ptr<ssz::Container>(const std::string&)>;
using Pair = bool (*)(const ssz::Container&, const ssz::Container&);
void add_type(const std::string& name, Mk mk, Pair eq, Pair ne, std::string (*fresh)());
void add_text(const std::string& name, Mk mk, std::string (*to)(const ssz::Container&), void (*from)(ssz::Container&, const std::string&));
template <class T> bool eq_(const ssz::Container& a, const ssz::Container& b) { return static_cast<const T&>(a) == static_cast<const T&>(b); }
template <class T> bool ne_(const ssz::Container& a, const ssz::Container& b) { return static_cast<const T&>(a) != static_cast<const T&>(b); }
// default construction on memory that held something else
template <class T> std::string fresh_() {
    void* m = ::operator new(sizeof(T));
    std::memset(m, 0xa5, sizeof(T));
    T* p = new (m) T;
    auto r = hex(p->serialize());
    p->~T(); ::operator delete(m);
    return r;
}
template <class T> std::unique_ptr<ssz::Container> mk_(const std::string&) { return std::make_unique<T>(); }
template <class T> std::unique_ptr<ssz::Container> mkl_(const std::string& l) { return std::make_unique<T>(std::stoull(l)); }
template <class T> struct Typ {
    static void def(const std::string& name) { add_type(name, mk_<T>, eq_<T>, ne_<T>, fresh_<T>); }
    static void lim(const std::string& name) { add_type(name, mkl_<T>, eq_<T>, ne_<T>, fresh_<T>); }
};
// sizes, iterators and element access of vectors and lists
template <class T> void add_seq(const std::string& n, Mk mk) {
    ops()["seq " + n] = [mk](const Args& a) -> std::string {
        auto p = mk("0"); if (!dec(*p, unhex(a[0]))) return "x";
        T& x = static_cast<T&>(*p); const T& c = x; std::string r = std::to_string(c.size());
        if constexpr (requires { x.begin(); }) { r += " "; for (auto i = x.begin(); i != x.end(); ++i) r += hex(i->serialize()) + ","; }
        if constexpr (requires { c.cbegin(); }) { r += " "; for (auto i = c.cbegin(); i != c.cend(); ++i) r += hex(i->serialize()) + ","; }
        if constexpr (requires { x.data(); }) { r += " "; for (auto& e : x.data()) r += hex(e.serialize()) + ","; }
        return r;
    };
}
