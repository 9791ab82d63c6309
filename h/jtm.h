// The native model of reading and printing, by type.
#pragma once

#include "jt.h"

namespace jt {

// ------------------------------------------------------------------ which types are what

template<typename T, typename = void> struct M; // model of T

inline int64_t randomInt(Rng& r)
{
    switch (r.below(5)) {
    case 0: return 0;
    case 1: return r.range(-5, 5);
    case 2: return r.chance(50) ? INT64_MAX - int64_t(r.below(3)) : INT64_MIN + int64_t(r.below(3));
    case 3: return int64_t(1) << r.below(63);
    default: return int64_t(r.next()) >> r.below(64);
    }
}
inline double randomDouble(Rng& r)
{
    switch (r.below(6)) {
    case 0: return 0;
    case 1: return r.range(-10, 10);
    case 2: return r.range(-100000, 100000) / 64.0;
    case 3: return ldexp(1 + r.below(1000) / 1000.0, int(r.range(-1070, 1020))) * (r.chance(50) ? -1 : 1);
    case 4: return double(r.next() >> 8) * 1.1;
    default: return (r.chance(50) ? -1 : 1) * (r.below(1000000) + 0.1 * r.below(10));
    }
}
std::string printedDouble(double d);

template<> struct M<bool>
{
    static void gen(bool& v, Rng& r, int) { v = r.chance(50); }
    static bool apply(bool& v, const Dom& d) { if (d.kind != Dom::Bool) return false; v = d.b; return true; }
    static Dom dom(const bool& v, bool) { return Dom::boolean(v); }
    static bool empty(const bool&) { return false; }
    static bool equal(const bool& a, const bool& b) { return a == b; }
    static void copy(bool& a, const bool& b) { a = b; }
    static Dom suited(Rng& r, int) { return Dom::boolean(r.chance(50)); }
    template<typename F> static void each(bool&, F&) {}
};
template<> struct M<int64_t>
{
    static void gen(int64_t& v, Rng& r, int) { v = randomInt(r); }
    static bool apply(int64_t& v, const Dom& d) { return d.kind == Dom::Int && d.toInt(v); }
    static Dom dom(const int64_t& v, bool) { return Dom::integer(v); }
    static bool empty(const int64_t& v) { return v == 0; }
    static bool equal(const int64_t& a, const int64_t& b) { return a == b; }
    static void copy(int64_t& a, const int64_t& b) { a = b; }
    static Dom suited(Rng& r, int) { return r.chance(10) ? Dom::number(Dom::Int, "00" + std::to_string(r.below(100))) : Dom::integer(randomInt(r)); }
    template<typename F> static void each(int64_t&, F&) {}
};
template<> struct M<double>
{
    static void gen(double& v, Rng& r, int) { v = randomDouble(r); }
    static bool apply(double& v, const Dom& d) { return (d.kind == Dom::Int || d.kind == Dom::Float) && d.toDouble(v); }
    static Dom dom(const double& v, bool) { std::string s = printedDouble(v); return Dom::number(s.find_first_of(".e") == std::string::npos ? Dom::Int : Dom::Float, s); }
    static bool empty(const double& v) { return v == 0; }
    static bool equal(const double& a, const double& b) { return a == b; }
    static void copy(double& a, const double& b) { a = b; }
    static Dom suited(Rng& r, int)
    {
        for (;;) {
            Dom d = randomDom(r, 0);
            double x;
            if ((d.kind == Dom::Int || d.kind == Dom::Float) && d.toDouble(x)) return d;
        }
    }
    template<typename F> static void each(double& v, F& f) { f(v); }
};
template<> struct M<std::string>
{
    static void gen(std::string& v, Rng& r, int) { v = randomText(r, 12); }
    static bool apply(std::string& v, const Dom& d) { if (d.kind != Dom::String) return false; v = d.s; return true; }
    static Dom dom(const std::string& v, bool) { return Dom::string(v); }
    static bool empty(const std::string& v) { return v.empty(); }
    static bool equal(const std::string& a, const std::string& b) { return a == b; }
    static void copy(std::string& a, const std::string& b) { a = b; }
    static Dom suited(Rng& r, int) { return Dom::string(randomText(r, 12)); }
    template<typename F> static void each(std::string& v, F& f) { f(v); }
};

// ------------------------------------------------------------------ pointers

template<typename P, typename T> struct MPtr
{
    static void gen(P& p, Rng& r, int depth)
    {
        p = P();
        if (depth <= 0 || r.chance(40)) return;
        p = P(new T());
        M<T>::gen(*p, r, depth - 1);
    }
    static bool apply(P& p, const Dom& d)
    {
        if (d.kind == Dom::Null) { p = P(); return true; }
        if (!p) p = P(new T());
        return M<T>::apply(*p, d);
    }
    static Dom dom(const P& p, bool c) { return p ? M<T>::dom(*p, c) : Dom(); }
    static bool empty(const P& p) { return !p || M<T>::empty(*p); }
    static bool equal(const P& a, const P& b) { return !a == !b && (!a || M<T>::equal(*a, *b)); }
    static void copy(P& a, const P& b) { a = P(); if (b) { a = P(new T()); M<T>::copy(*a, *b); } }
    static Dom suited(Rng& r, int depth) { return depth <= 0 || r.chance(20) ? Dom() : M<T>::suited(r, depth - 1); }
    template<typename F> static void each(P& p, F& f) { if (p) M<T>::each(*p, f); }
};
template<typename T> struct M<std::shared_ptr<T> > : MPtr<std::shared_ptr<T>, T> {};
template<typename T> struct M<std::unique_ptr<T> > : MPtr<std::unique_ptr<T>, T> {};
template<typename T> struct M<T*> : MPtr<T*, T> {};

// ------------------------------------------------------------------ containers

template<typename T> struct M<std::vector<T> >
{
    typedef std::vector<T> V;
    static void gen(V& v, Rng& r, int depth)
    {
        v.clear();
        int n = depth <= 0 ? 0 : r.below(r.chance(70) ? 3 : 6);
        for (; n > 0; --n) { v.emplace_back(); M<T>::gen(v.back(), r, depth - 1); }
    }
    static bool apply(V& v, const Dom& d)
    {
        if (d.kind == Dom::Null) return true;
        if (d.kind != Dom::Array) return false;
        for (auto& i : d.items) {
            T t = T();
            if (!M<T>::apply(t, i)) return false;
            v.push_back(std::move(t));
        }
        return true;
    }
    static Dom dom(const V& v, bool c) { Dom d(Dom::Array); for (auto& t : v) d.items.push_back(M<T>::dom(t, c)); return d; }
    static bool empty(const V& v) { return v.empty(); }
    static bool equal(const V& a, const V& b)
    {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i) if (!M<T>::equal(a[i], b[i])) return false;
        return true;
    }
    static void copy(V& a, const V& b) { a.clear(); for (auto& t : b) { a.emplace_back(); M<T>::copy(a.back(), t); } }
    static Dom suited(Rng& r, int depth)
    {
        if (r.chance(5)) return Dom();
        Dom d(Dom::Array);
        for (int n = depth <= 0 ? r.below(2) : r.below(4); n > 0; --n) d.items.push_back(M<T>::suited(r, depth - 1));
        return d;
    }
    template<typename F> static void each(V& v, F& f) { for (auto& t : v) M<T>::each(t, f); }
};

template<typename Map, typename T> struct MMap
{
    static void gen(Map& m, Rng& r, int depth)
    {
        m.clear();
        for (int n = depth <= 0 ? 0 : r.below(4); n > 0; --n) M<T>::gen(m[randomText(r, 5)], r, depth - 1);
    }
    static bool apply(Map& m, const Dom& d)
    {
        if (d.kind == Dom::Null) return true;
        if (d.kind != Dom::Object) return false;
        for (auto& k : d.members) {
            T t = T();
            if (!M<T>::apply(t, k.second)) return false;
            m[k.first] = std::move(t);
        }
        return true;
    }
    static Dom dom(const Map& m, bool c)
    {
        Dom d(Dom::Object);
        for (auto& k : m) d.members.emplace_back(k.first, M<T>::dom(k.second, c));
        return d;
    }
    static bool empty(const Map& m) { return m.empty(); }
    static bool equal(const Map& a, const Map& b)
    {
        if (a.size() != b.size()) return false;
        for (auto& k : a) { auto it = b.find(k.first); if (it == b.end() || !M<T>::equal(k.second, it->second)) return false; }
        return true;
    }
    static void copy(Map& a, const Map& b) { a.clear(); for (auto& k : b) M<T>::copy(a[k.first], k.second); }
    static Dom suited(Rng& r, int depth)
    {
        if (r.chance(5)) return Dom();
        Dom d(Dom::Object);
        for (int n = depth <= 0 ? r.below(2) : r.below(4); n > 0; --n) d.members.emplace_back(randomText(r, 4), M<T>::suited(r, depth - 1));
        if (!d.members.empty() && r.chance(20)) d.members.emplace_back(d.members[0].first, M<T>::suited(r, depth - 1));
        return d;
    }
    template<typename F> static void each(Map& m, F& f)
    {
        for (auto& k : m) { M<T>::each(k.second, f); }
    }
};
template<typename T> struct M<std::map<std::string, T> > : MMap<std::map<std::string, T>, T> {};
template<typename T> struct M<std::unordered_map<std::string, T> > : MMap<std::unordered_map<std::string, T>, T> {};

// ------------------------------------------------------------------ objects

template<> struct M<Custom>
{
    static void gen(Custom& c, Rng& r, int) { c.x = randomInt(r); c.tag = randomText(r, 4); }
    static bool apply(Custom& c, const Dom& d)
    {
        if (d.kind == Dom::Null) return true;
        if (d.kind != Dom::Array) return false;
        for (size_t i = 0; i < d.items.size(); ++i) {
            if (i == 0 && !M<std::string>::apply(c.tag, d.items[0])) return false;
            if (i == 1 && !M<int64_t>::apply(c.x, d.items[1])) return false;
        }
        return true;
    }
    static Dom dom(const Custom& c, bool) { Dom d(Dom::Array); d.items.push_back(Dom::string(c.tag)); d.items.push_back(Dom::integer(c.x)); return d; }
    static bool empty(const Custom&) { return false; }
    static bool equal(const Custom& a, const Custom& b) { return a.x == b.x && a.tag == b.tag; }
    static void copy(Custom& a, const Custom& b) { a = b; }
    static Dom suited(Rng& r, int)
    {
        Dom d(Dom::Array);
        size_t n = r.below(4);
        if (n > 0) d.items.push_back(M<std::string>::suited(r, 0));
        if (n > 1) d.items.push_back(M<int64_t>::suited(r, 0));
        if (n > 2) d.items.push_back(randomDom(r, 2));
        return d;
    }
    template<typename F> static void each(Custom& c, F& f) { f(c.tag); }
};

struct GenF
{
    Rng& r; int depth;
    template<typename T> void operator()(const char*, T& v) { M<T>::gen(v, r, depth - 1); }
    template<typename T> void optional(const char*, T& v) { M<T>::gen(v, r, depth - 1); }
};
struct ApplyF
{
    const std::string& key; const Dom& d; bool found, ok;
    template<typename T> void operator()(const char* n, T& v) { if (key == n) { found = true; ok = M<T>::apply(v, d); } }
    template<typename T> void optional(const char* n, T& v) { (*this)(n, v); }
};
struct DomF
{
    bool compact; std::map<std::string, Dom> out;
    template<typename T> void operator()(const char* n, T& v) { if (!compact || !M<T>::empty(v)) out[n] = M<T>::dom(v, compact); }
    template<typename T> void optional(const char* n, T& v) { if (!M<T>::empty(v)) out[n] = M<T>::dom(v, compact); }
};
struct AddrF
{
    std::vector<void*> out;
    template<typename T> void operator()(const char*, T& v) { out.push_back(&v); }
    template<typename T> void optional(const char*, T& v) { out.push_back(&v); }
};
struct EqualF
{
    std::vector<void*> other; size_t i; bool same;
    template<typename T> void operator()(const char*, T& v) { if (!M<T>::equal(v, *static_cast<T*>(other[i++]))) same = false; }
    template<typename T> void optional(const char* n, T& v) { (*this)(n, v); }
};
struct CopyF
{
    std::vector<void*> other; size_t i;
    template<typename T> void operator()(const char*, T& v) { M<T>::copy(v, *static_cast<T*>(other[i++])); }
    template<typename T> void optional(const char* n, T& v) { (*this)(n, v); }
};
struct SuitF
{
    Rng& r; int depth; Dom& d;
    template<typename T> void operator()(const char* n, T&) { if (r.chance(depth > 1 ? 40 : 15)) d.members.emplace_back(n, M<T>::suited(r, depth - 1)); }
    template<typename T> void optional(const char* n, T& v) { (*this)(n, v); }
};
template<typename F> struct EachF
{
    F& f;
    template<typename T> void operator()(const char*, T& v) { M<T>::each(v, f); }
    template<typename T> void optional(const char* n, T& v) { (*this)(n, v); }
};

inline void copyHidden(...) {}
inline void copyHidden(Node* a, const Node* b) { a->hidden = b->hidden; }
inline bool sameHidden(...) { return true; }
inline bool sameHidden(Node* a, const Node* b) { return a->hidden == b->hidden; }
inline void genHidden(Rng&, ...) {}
inline void genHidden(Rng& r, Node* a) { a->hidden = r.below(100); }

template<typename T> struct MObj
{
    static T& mut(const T& o) { return const_cast<T&>(o); }
    static void gen(T& o, Rng& r, int depth) { GenF f = { r, depth }; fields(o, f); genHidden(r, &o); }
    static bool apply(T& o, const Dom& d)
    {
        if (d.kind == Dom::Null) return true;
        if (d.kind != Dom::Object) return false;
        for (auto& m : d.members) {
            ApplyF f = { m.first, m.second, false, true };
            fields(o, f);
            if (!f.ok) return false;
        }
        return true;
    }
    static Dom dom(const T& o, bool c)
    {
        DomF f; f.compact = c;
        fields(mut(o), f);
        Dom d(Dom::Object);
        for (auto& k : f.out) d.members.push_back(k);
        return d;
    }
    static bool empty(const T&) { return false; }
    static bool equal(const T& a, const T& b)
    {
        AddrF x; fields(mut(b), x);
        EqualF f = { x.out, 0, true };
        fields(mut(a), f);
        return f.same && sameHidden(&mut(a), &b);
    }
    static void copy(T& a, const T& b)
    {
        AddrF x; fields(mut(b), x);
        CopyF f = { x.out, 0 };
        fields(a, f);
        copyHidden(&a, &b);
    }
    static Dom suited(Rng& r, int depth)
    {
        if (r.chance(4)) return Dom();
        Dom d(Dom::Object);
        T* o = new T();
        SuitF f = { r, depth, d };
        fields(*o, f);
        if (r.chance(15)) fields(*o, f); // again: the same keys twice.
        delete o;
        while (r.chance(20)) {
            static const char* strangers[] = { "hidden", "renamed", "escaped", "optList", "", "B", "leaf ", "nothing", "\xE2\x82\xAC" };
            d.members.emplace_back(strangers[r.below(9)], randomDom(r, 3));
        }
        r.shuffle(d.members);
        return d;
    }
    template<typename G> static void each(T& o, G& g) { EachF<G> f = { g }; fields(o, f); }
};
template<> struct M<Leaf> : MObj<Leaf> {};
template<> struct M<Derived> : MObj<Derived> {};
template<> struct M<Node> : MObj<Node> {};
template<> struct M<Top> : MObj<Top> {};
template<> struct M<Empty> : MObj<Empty> {};

// ------------------------------------------------------------------ targets

struct Poison
{
    int kind; uint64_t pick; uint64_t seen; bool hit;
    void operator()(double& d) { if (kind < 3 && seen++ == pick) { hit = true; d = kind == 1 ? NAN : (pick & 1 ? INFINITY : -INFINITY); } }
    void operator()(std::string& s)
    {
        if (kind != 3 || seen++ != pick) return;
        static const char* bad[] = { "\x80", "\xC3", "\xC0\x80", "\xE2\x82", "\xF0\x9F\x98", "\xFF", "\xE0\x80\x80", "\xC3(", "\xF8\x88\x80\x80\x80", "\xF0\x80\x80\x80" };
        hit = true;
        s.insert(s.empty() || validUtf8(s.substr(0, s.size() / 2)) ? s.size() / 2 : 0, bad[pick % 10]);
    }
};
struct Count { uint64_t doubles, strings; void operator()(double&) { doubles++; } void operator()(std::string&) { strings++; } };

struct Poisonable { virtual bool poison(Rng& r, int kind) = 0; };

template<typename T>
struct TargetT : public Target, public Poisonable
{
    T value;
    const char* n;
    explicit TargetT(const char* n) : value(T()), n(n) {}
    static const T& of(const Target& o) { return static_cast<const TargetT<T>&>(o).value; }

    const char* name() const { return n; }
    std::unique_ptr<Target> fresh() const { return std::unique_ptr<Target>(new TargetT<T>(n)); }
    void gen(Rng& r, int depth) { M<T>::gen(value, r, depth); }
    void read(Reader& reader) { Abroad a; reflect::json::parse(reader, value); }
    void print(Writer& writer) const { Abroad a; reflect::json::print(writer, value); }
    reflect::json::Error readText(const std::string& s) { Abroad a; return reflect::json::parse(s, value); }
    std::pair<std::string, reflect::json::Error> printText() const { Abroad a; return reflect::json::print(value); }
    bool apply(const Dom& d) { return M<T>::apply(value, d); }
    Dom dom(bool compact) const { return M<T>::dom(value, compact); }
    void copyFrom(const Target& o) { M<T>::copy(value, of(o)); }
    bool equal(const Target& o) const { return M<T>::equal(value, of(o)); }
    Dom suited(Rng& r, int depth) const { return M<T>::suited(r, depth); }
    bool poison(Rng& r, int kind)
    {
        Count c = { 0, 0 };
        M<T>::each(value, c);
        uint64_t k = kind == 3 ? c.strings : c.doubles;
        if (!k) return false;
        Poison p = { kind, r.below(k), 0, false };
        M<T>::each(value, p);
        return p.hit;
    }
};

} // namespace jt
