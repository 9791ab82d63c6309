#include "jtm.h"
namespace jt {

using reflect::Value;

std::string printedDouble(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%.12g", d);
    return b;
}

namespace {

// What reading without a type makes of a document.
bool matches(const Value& v, const Dom& d)
{
    typedef std::vector<Value> Array;
    typedef std::unordered_map<std::string, Value> Object;
    switch (d.kind) {
    case Dom::Null: return v.isVoid();
    case Dom::Bool: return !v.isVoid() && v.type() == reflect::type<bool>() && v.get<bool>() == d.b;
    case Dom::Int: { int64_t i; return !v.isVoid() && v.type() == reflect::type<int64_t>() && d.toInt(i) && v.get<int64_t>() == i; }
    case Dom::Float: { double x; return !v.isVoid() && v.type() == reflect::type<double>() && d.toDouble(x) && v.get<double>() == x; }
    case Dom::String: return !v.isVoid() && v.type() == reflect::type<std::string>() && v.get<std::string>() == d.s;
    case Dom::Array: {
        if (v.isVoid() || v.type() != reflect::type<Array>()) return false;
        auto& a = v.get<Array>();
        if (a.size() != d.items.size()) return false;
        for (size_t i = 0; i < a.size(); ++i) if (!matches(a[i], d.items[i])) return false;
        return true; }
    default: {
        if (v.isVoid() || v.type() != reflect::type<Object>()) return false;
        auto& o = v.get<Object>();
        std::set<std::string> seen;
        for (auto& m : d.members) {
            if (!seen.insert(m.first).second) continue; // the first of equal keys counts.
            auto it = o.find(m.first);
            if (it == o.end() || !matches(it->second, m.second)) return false;
        }
        return o.size() == seen.size(); }
    }
}
bool inRange(const Dom& d)
{
    int64_t i; double x;
    if (d.kind == Dom::Int) return d.toInt(i);
    if (d.kind == Dom::Float) return d.toDouble(x);
    for (auto& c : d.items) if (!inRange(c)) return false;
    for (auto& c : d.members) if (!inRange(c.second)) return false;
    return true;
}
bool makeInRange(Dom& d)
{
    if (d.kind <= Dom::String && !inRange(d)) d = Dom::integer(1);
    for (auto& c : d.items) makeInRange(c);
    for (auto& c : d.members) makeInRange(c.second);
    return true;
}

struct TargetValue : public Target
{
    Value v;
    Dom d;
    bool modelled = false;
    static const TargetValue& of(const Target& o) { return static_cast<const TargetValue&>(o); }
    const char* name() const { return "Value"; }
    std::unique_ptr<Target> fresh() const { return std::unique_ptr<Target>(new TargetValue); }
    void gen(Rng&, int) {}
    void read(Reader& reader) { Abroad a; v = Value(); reflect::json::parse(reader, v); }
    void print(Writer&) const {}
    reflect::json::Error readText(const std::string& s) { std::istringstream ss(s); Reader r(ss); reflect::json::parse(r, v); return r.error(); }
    std::pair<std::string, reflect::json::Error> printText() const { return std::make_pair(std::string(), reflect::json::Error()); }
    bool apply(const Dom& x) { d = x; modelled = true; return inRange(d); }
    Dom dom(bool) const { return d; }
    void copyFrom(const Target& o) { v = of(o).v; d = of(o).d; }
    bool equal(const Target& o) const
    {
        if (of(o).modelled) return matches(v, of(o).d);
        return matches(of(o).v, d);
    }
    Dom suited(Rng& r, int depth) const { Dom x = randomDom(r, depth); makeInRange(x); return x; }
    bool printable() const { return false; }
};

}

std::unique_ptr<Target> make1(size_t i);
std::unique_ptr<Target> make2(size_t i);
std::unique_ptr<Target> make3(size_t i);

size_t targetCount() { return 20; }
std::unique_ptr<Target> makeTarget(size_t i)
{
    if (i < 3) return make1(i);
    if (i < 11) return make2(i - 3);
    if (i < 19) return make3(i - 11);
    return std::unique_ptr<Target>(new TargetValue);
}

bool poison(Target& t, Rng& r, int kind)
{
    Poisonable* p = dynamic_cast<Poisonable*>(&t);
    return p && p->poison(r, kind);
}

}
