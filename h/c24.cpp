// C24: exceptions of user code, raised at every point of every operation in turn, come through unchanged and cost nothing:
// all objects are accounted for, what wasn't touched is as before, and everything can be used again.
#include "common.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/reflect/value.h"
#include "utils/json.h"
#include "dsl/template.h"

#include <new>
#include <stdexcept>
#include <thread>

using namespace vf;
using reflect::Value;
using reflect::Function;
using reflect::Type;

/******************************************************************************/
/* FUSE                                                                       */
/******************************************************************************/

namespace c24 {

struct Blast { int id; };

// Every piece of user code steps; the fuse blows at one of the steps.
bool armed = false;    // steps count.
bool memory = false;   // allocations step too.
long steps = 0, fuse = 0;
unsigned kind = 0;
std::exception_ptr thrown;

std::exception_ptr make(unsigned k, int id)
{
    switch (k % 7) {
    case 0: return std::make_exception_ptr(Blast{ id });
    case 1: return std::make_exception_ptr(id);
    case 2: return std::make_exception_ptr(std::runtime_error("blast " + std::to_string(id)));
    case 3: return std::make_exception_ptr(reflect::Error("blast " + std::to_string(id)));
    case 4: return std::make_exception_ptr(static_cast<const char*>("blast"));
    case 5: return std::make_exception_ptr(std::string("blast"));
    default: return std::make_exception_ptr(std::bad_alloc());
    }
}

void step()
{
    if (!armed) return;
    if (++steps != fuse) return;
    armed = false;
    thrown = make(kind, int(fuse));
    std::rethrow_exception(thrown);
}

/******************************************************************************/
/* TYPES                                                                      */
/******************************************************************************/

std::map<const void*, int>& live() { static auto* l = new std::map<const void*, int>; return *l; }

// The object proper: all of its members step before they do anything.
struct X
{
    int64_t v;
    int* mem;

    void enter(int64_t x)
    {
        bool was = armed; armed = false;
        v = x; mem = new int(1);
        if (!live().emplace(this, 1).second) fail("ledger", "object made over a live one", false);
        armed = was;
    }
    void check() const
    {
        if (!live().count(this)) fail("ledger", "an object that isn't alive is used");
        VF_CHECK(*mem == 1, "ledger", "broken object");
    }

    X() { step(); enter(0); }
    X(int64_t v) { step(); enter(v); }
    X(const X& o) { step(); o.check(); enter(o.v); }
    X(X&& o) { step(); o.check(); enter(o.v); o.v = -1; }
    X& operator=(const X& o) { step(); check(); o.check(); v = o.v; return *this; }
    X& operator=(X&& o) { step(); check(); o.check(); if (this != &o) { v = o.v; o.v = -1; } return *this; }
    ~X()
    {
        if (!live().erase(this)) { fail("ledger", "an object that isn't alive is destroyed", false); return; }
        delete mem;
    }

    int64_t get() const { step(); check(); return v; }
    void set(int64_t x) { step(); check(); v = x; }
    X twice() const { step(); check(); X r(v * 2); step(); return r; }
    X& self() { step(); return *this; }
    const X& cself() const { step(); return *this; }
    void take(X o) { step(); check(); v += o.v; }
    int64_t three(X a, const X& b, X c) const { step(); return a.v + 10 * b.v + 100 * c.v + 1000 * v; }
    void eat(X&& o) { X x(std::move(o)); step(); v += x.v; }

    bool operator==(const X& o) const { step(); return v == o.v; }
    bool operator<(const X& o) const { step(); return v < o.v; }
    X operator+(const X& o) const { step(); return X(v + o.v); }
    X& operator+=(const X& o) { step(); v += o.v; return *this; }
    X& operator++() { step(); ++v; return *this; }
    X operator++(int) { step(); X r(*this); ++v; return r; }
    X operator-() const { step(); return X(-v); }
    bool operator!() const { step(); return !v; }
    operator bool() const { step(); return v; }
    X operator()(X a, const X& b) const { step(); return X(v + a.v + b.v); }
    X& operator*() { step(); return *this; }
    X operator[](int64_t i) const { step(); return X(v + i); }
};

// Converts to an X.
struct Y
{
    X x;
    Y() {}
    Y(int64_t v) : x(v) {}
    operator X() const { step(); return X(x.v + 1); }
    operator int64_t() const { step(); return x.v; }
};

// A child.
struct Z : public X
{
    X more;
    Z() {}
    Z(int64_t v) : X(v), more(v + 5) {}
    bool operator==(const Z& o) const { return X::operator==(o) && more == o.more; }
};

// What JSON is read into and printed from.
struct Doc
{
    X x;
    int64_t n = 7;
    std::vector<X> list;
    std::map<std::string, X> map;
    std::shared_ptr<X> shared;
    std::unique_ptr<X> unique;
    std::shared_ptr<Doc> next;
    std::vector<std::shared_ptr<Doc> > kids;
    std::map<std::string, std::vector<X> > deep;
};

} // namespace c24

namespace rj = reflect::json;

reflectTypeDecl(c24::X) reflectTypeDecl(c24::Y) reflectTypeDecl(c24::Z) reflectTypeDecl(c24::Doc)
reflectTypeImpl(c24::X)
{
    reflectPlumbing(); reflectAllocPlumbing(); reflectCons(int64_t); reflectField(v);
    reflectFn(get); reflectFn(set); reflectFn(twice); reflectFn(self); reflectFn(cself); reflectFn(take); reflectFn(three); reflectFn(eat);
    reflectFn(operator==); reflectFn(operator<); reflectFn(operator+); reflectFn(operator+=); reflectFnTyped(operator++, c24::X& (c24::X::*)());
    reflectFnTyped(operator++, c24::X (c24::X::*)(int)); reflectFn(operator-); reflectFn(operator!); reflectOpCast(bool); reflectFn(operator());
    reflectFn(operator*); reflectFn(operator[]);
    reflectTypeValue(json, rj::custom("in", "out"));
    reflectCustom(in) (T_& o, rj::Reader& r) {
        c24::step(); int64_t x = 0; rj::parse(r, x); c24::step(); o.v = x;
    };
    reflectCustom(out) (const T_& o, rj::Writer& w) { c24::step(); rj::printInt(w, o.v); c24::step(); };
}
reflectTypeImpl(c24::Y) { reflectPlumbing(); reflectField(x); reflectOpCast(c24::X); reflectOpCast(int64_t); }
reflectTypeImpl(c24::Z) { reflectParent(c24::X); reflectPlumbing(); reflectAllocPlumbing(); reflectCons(int64_t); reflectField(more); }
reflectTypeImpl(c24::Doc)
{
    reflectPlumbing(); reflectAllocPlumbing(); reflectField(x); reflectField(n); reflectField(list); reflectField(map); reflectField(shared);
    reflectField(unique); reflectField(next); reflectField(kids); reflectField(deep);
}

// Types whose description fails, each looked up once.
namespace c24 {
template<int N> struct Undescribed { int64_t a = N; };
template<int N> struct Holder { int64_t n = 1; Undescribed<N> u; };
}
namespace reflect {
template<int N> struct Reflect<c24::Undescribed<N> >
{
    typedef c24::Undescribed<N> T_;
    static std::string id() { return "c24::Undescribed<" + std::to_string(N) + ">"; }
    reflectTemplateLoader()
    static void reflect(Type* type_) { reflectPlumbing(); c24::step(); reflectField(a); c24::step(); reflectSizeof(); }
};
template<int N> struct Reflect<c24::Holder<N> >
{
    typedef c24::Holder<N> T_;
    static std::string id() { return "c24::Holder<" + std::to_string(N) + ">"; }
    reflectTemplateLoader()
    static void reflect(Type* type_) { reflectPlumbing(); reflectField(n); reflectField(u); }
};
}

/******************************************************************************/
/* ALLOCATIONS                                                                */
/******************************************************************************/

extern "C" void* __real__Znwm(size_t n);
extern "C" void* __wrap__Znwm(size_t n);
void* __wrap__Znwm(size_t n)
{
    if (c24::memory && c24::armed && ++c24::steps == c24::fuse) {
        c24::armed = false;
        c24::thrown = std::make_exception_ptr(std::bad_alloc());
        std::rethrow_exception(c24::thrown);
    }
    return __real__Znwm(n);
}

namespace {

using namespace c24;

/******************************************************************************/
/* WORLD                                                                      */
/******************************************************************************/

// All that an operation may work on.
struct World
{
    int64_t seed;
    X a, b;
    const X c;
    Y y;
    Z z;
    std::vector<X> vec;
    std::map<std::string, X> map;
    std::shared_ptr<X> sp, sp2;
    std::unique_ptr<X> up;
    X* raw = nullptr;        // owned, if any.
    Doc doc;
    Value va, vc, vo, vo2, vz, vvec, vmap, vsp, vup, vdoc, vy;
    std::string text;        // json
    std::unique_ptr<Type> type;
    reflect::Scope scope;
    std::vector<Value> kept; // results

    explicit World(int64_t s) :
        seed(s), a(s + 1), b(s + 2), c(s + 3), y(s + 4), z(s + 5), sp(std::make_shared<X>(s + 6)), up(new X(s + 7)),
        va(a), vc(c), vo(X(s + 8)), vo2(X(s + 9)), vz(z), vvec(vec), vmap(map), vsp(sp), vup(up), vdoc(doc), vy(y), type(new Type("c24::made")), scope("c24world")
    {
        vec.reserve(3);
        for (int64_t i = 0; i < 2 + s % 3; ++i) vec.emplace_back(s + 10 + i);
        for (int64_t i = 0; i < 1 + s % 3; ++i) map.emplace("k" + std::to_string(i), X(s + 20 + i));
        sp2 = sp;
    }
    ~World() { delete raw; }

    static void show(std::ostringstream& ss, const X& x) { x.check(); ss << x.v << ' '; }
    static void show(std::ostringstream& ss, const Doc& d)
    {
        ss << "{"; show(ss, d.x); ss << d.n << " [";
        for (auto& i : d.list) show(ss, i);
        ss << "]";
        for (auto& i : d.map) { ss << i.first << ":"; show(ss, i.second); }
        if (d.shared) { ss << "s" << d.shared.use_count(); show(ss, *d.shared); }
        if (d.unique) show(ss, *d.unique);
        if (d.next) show(ss, *d.next);
        for (auto& i : d.kids) { if (i) show(ss, *i); else ss << "null "; }
        for (auto& i : d.deep) { ss << i.first << "=["; for (auto& j : i.second) show(ss, j); ss << "]"; }
        ss << "}";
    }
    static void show(std::ostringstream& ss, const Value& v)
    {
        if (v.isVoid()) { ss << "void "; return; }
        ss << v.typeId() << (v.isConst() ? "c" : "") << (v.isStored() ? "o" : "") << int(v.refType());
        if (v.type()->isChildOf<X>()) { ss << ':'; show(ss, v.get<X>()); }
        ss << ' ';
    }

    // All of the contents; checks every object on the way.
    std::string digest() const
    {
        std::ostringstream ss;
        for (auto* x : { &a, &b, &c, &y.x, (const X*) &z, &z.more }) show(ss, *x);
        ss << "["; for (auto& i : vec) show(ss, i); ss << "]";
        for (auto& i : map) { ss << i.first << ":"; show(ss, i.second); }
        ss << "sp" << sp.use_count() << (sp == sp2);
        if (sp) show(ss, *sp);
        if (up) show(ss, *up); else ss << "null ";
        if (raw) show(ss, *raw);
        show(ss, doc);
        for (auto* v : { &va, &vc, &vo, &vo2, &vz, &vvec, &vmap, &vsp, &vup, &vdoc, &vy }) show(ss, *v);
        for (auto& v : kept) show(ss, v);
        ss << type->print() << type->functions().size();
        for (auto& t : type->traits()) ss << " " << t;
        for (auto& f : scope.functions()) ss << " " << f;
        for (auto& t : scope.traits()) ss << " " << t;
        return ss.str();
    }
};

// What follows isn't subject to failures.
struct Calm
{
    bool was;
    Calm() : was(armed) { armed = false; }
    ~Calm() { armed = was; }
};

struct Op
{
    const char* name;
    int strong;   // 1: nothing is changed unless it succeeds; 2: the same, but allocations that fail may leak since plain pointers are handed around; 3: such, and not 1;
                  // 4: as 1, except when allocations fail, then it may be done halfway;
                  // 5: nothing is changed if the first step fails.
    std::function<std::string(World&)> run; // returns the result.
};

std::string str(const X& x) { x.check(); return std::to_string(x.v); }
std::string str(const Value& v) { std::ostringstream ss; World::show(ss, v); return ss.str(); }
std::string str(int64_t x) { return std::to_string(x); }

// Functions to call.
const Function& fn(size_t i)
{
    static std::vector<Function>* fns = [] {
        bool was = armed; armed = false;
        auto* v = new std::vector<Function>;
        v->reserve(16);
        v->emplace_back("byVal", +[] (X x) -> int64_t { step(); return x.v; });
        v->emplace_back("cref", +[] (const X& x) -> int64_t { step(); return x.v; });
        v->emplace_back("lref", +[] (X& x) -> int64_t { step(); return x.v; });
        v->emplace_back("rref", +[] (X&& x) -> int64_t { step(); X y(std::move(x)); return y.v; });
        v->emplace_back("three", +[] (X a, X b, const X& c) -> X { step(); return X(a.v + 10 * b.v + 100 * c.v); });
        v->emplace_back("ret", +[] (const X& x) -> X { step(); X r(x); step(); return r; });
        v->emplace_back("retRef", +[] (X& x) -> X& { step(); return x; });
        v->emplace_back("retPtr", +[] (const X& x) -> std::unique_ptr<X> { step(); std::unique_ptr<X> r(new X(x)); step(); return r; });
        X state(42);
        v->emplace_back("functor", [state] (const X& x) -> X { step(); return X(state.v + x.v); });
        v->emplace_back("opaque", +[] (Value v) -> Value { step(); Value c = v.copy(); step(); return c; });
        // Reflection within reflection.
        v->emplace_back("nested", +[] (const X& x) -> X {
                step();
                Value r = Value(x).call<Value>("twice");
                return reflect::type<X>()->construct(r).get<X>();
            });
        v->emplace_back("vector", +[] (std::vector<X> v) -> int64_t { step(); int64_t s = 0; for (auto& i : v) s += i.v; return s; });
        armed = was;
        return v;
    }();
    return (*fns)[i];
}

std::string readDoc(World& w, const std::string& text, bool fresh)
{
    std::istringstream in(text);
    rj::Reader reader(in);
    Doc own;
    Doc& doc = fresh ? own : w.doc;
    rj::parse(reader, doc);
    std::ostringstream ss;
    if (!reader) ss << "error: " << reader.error().what();
    World::show(ss, doc);
    return ss.str();
}

std::string printDoc(const Doc& doc, unsigned opts)
{
    std::ostringstream out;
    rj::Writer writer(out, rj::Writer::Options(opts));
    rj::print(writer, doc);
    if (!writer) return std::string("error: ") + writer.error().what();
    return out.str();
}

// A random document for a Doc.
std::string docText(Rng& r, int depth)
{
    std::vector<std::string> m;
    auto num = [&] { return std::to_string(r.below(1000)); };
    auto list = [&] { std::string s = "["; for (size_t i = 0, n = r.below(4); i < n; ++i) s += (i ? "," : "") + num(); return s + "]"; };
    if (r.chance(60)) m.push_back("\"x\":" + num());
    if (r.chance(30)) m.push_back("\"n\":" + num());
    if (r.chance(60)) m.push_back("\"list\":" + list());
    if (r.chance(60)) {
        std::string s;
        for (size_t i = 0, n = r.below(4); i < n; ++i) s += (i ? ",\"k" : "\"k") + std::to_string(i) + "\":" + num();
        m.push_back("\"map\":{" + s + "}");
    }
    if (r.chance(60)) m.push_back("\"shared\":" + (r.chance(20) ? "null" : num()));
    if (r.chance(60)) m.push_back("\"unique\":" + (r.chance(20) ? "null" : num()));
    if (depth && r.chance(60)) m.push_back("\"next\":" + docText(r, depth - 1));
    if (depth && r.chance(50)) {
        std::string s;
        for (size_t i = 0, n = r.below(3); i < n; ++i) s += (i ? "," : "") + (r.chance(20) ? "null" : docText(r, depth - 1));
        m.push_back("\"kids\":[" + s + "]");
    }
    if (r.chance(50)) m.push_back("\"deep\":{\"p\":" + list() + ",\"q\":" + list() + "}");
    r.shuffle(m);
    std::string s = "{";
    for (size_t i = 0; i < m.size(); ++i) s += (i ? "," : "") + m[i];
    return s + "}";
}

const std::vector<Op>& ops()
{
    static auto* list = new std::vector<Op> {
        // ------------------------------------------------------------ calls
        { "by value of an object", 1, [] (World& w) { return str(fn(0).call<int64_t>(w.a)); } },
        { "by value of a Value", 1, [] (World& w) { return str(fn(0).call<int64_t>(w.va)); } },
        { "by value of an owner", 1, [] (World& w) { return str(fn(0).call<int64_t>(w.vo)); } },
        { "by value of an rvalue", 5, [] (World& w) { return str(fn(0).call<int64_t>(w.vo.rvalue())); } },
        { "by value of a child", 1, [] (World& w) { return str(fn(0).call<int64_t>(w.vz)); } },
        { "by value of a convertible", 1, [] (World& w) { return str(fn(0).call<int64_t>(w.vy)); } },
        { "by value of a temporary", 1, [] (World& w) { return str(fn(0).call<int64_t>(X(w.seed))); } },
        { "by const reference", 1, [] (World& w) { return str(fn(1).call<int64_t>(w.c)); } },
        { "by reference", 1, [] (World& w) { return str(fn(2).call<int64_t>(w.va)); } },
        { "by rvalue reference", 5, [] (World& w) { return str(fn(3).call<int64_t>(w.vo.rvalue())); } },
        { "by rvalue reference to a temporary", 1, [] (World& w) { return str(fn(3).call<int64_t>(X(w.seed))); } },
        { "three arguments", 1, [] (World& w) { return str(fn(4).call<X>(w.va, w.vo, w.vc)); } },
        { "three plain arguments", 1, [] (World& w) { return str(fn(4).call<Value>(w.a, w.z, w.c)); } },
        { "three convertible arguments", 1, [] (World& w) { return str(fn(4).call<Value>(w.vy, w.vz, w.va)); } },
        { "value result", 1, [] (World& w) { return str(fn(5).call<X>(w.va)); } },
        { "opaque result", 1, [] (World& w) { w.kept.push_back(fn(5).call<Value>(w.va)); return str(w.kept.back()); } },
        { "ignored result", 1, [] (World& w) { fn(5).call<void>(w.va); return std::string(); } },
        { "reference result", 1, [] (World& w) { return str(fn(6).call<X&>(w.va)); } },
        { "reference result by value", 1, [] (World& w) { return str(fn(6).call<X>(w.va)); } },
        { "unique opaque result", 1, [] (World& w) { return str(*fn(7).call<Value>(w.va)); } },
        { "functor", 1, [] (World& w) { return str(fn(8).call<X>(w.va)); } },
        { "opaque parameter", 1, [] (World& w) { return str(fn(9).call<Value>(w.va)); } },
        { "opaque parameter, owner", 1, [] (World& w) { return str(fn(9).call<Value>(w.vo)); } },
        { "nested calls", 1, [] (World& w) { return str(fn(10).call<X>(w.va)); } },
        { "container by value", 1, [] (World& w) { return str(fn(11).call<int64_t>(w.vvec)); } },
        { "container by rvalue", 0, [] (World& w) { return str(fn(11).call<int64_t>(w.vvec.rvalue())); } },

        // ---------------------------------------------------------- methods
        { "getter", 1, [] (World& w) { return str(w.va.call<int64_t>("get")); } },
        { "getter of a const object", 1, [] (World& w) { return str(w.vc.call<int64_t>("get")); } },
        { "setter", 1, [] (World& w) { w.va.call<void>("set", int64_t(3)); return str(w.a); } },
        { "setter with a convertible", 1, [] (World& w) { w.va.call<void>("set", w.vy); return str(w.a); } },
        { "method by value", 1, [] (World& w) { w.va.call<void>("take", w.vo); return str(w.a); } },
        { "method by convertible", 1, [] (World& w) { w.va.call<void>("take", w.vy); return str(w.a); } },
        { "method with three", 1, [] (World& w) { return str(w.vo.call<int64_t>("three", w.va, w.vc, w.vz)); } },
        { "method by rvalue", 5, [] (World& w) { w.va.call<void>("eat", w.vo.rvalue()); return str(w.a); } },
        { "method of a child", 1, [] (World& w) { return str(w.vz.call<X>("twice")); } },
        { "chained methods", 1, [] (World& w) { return str(w.va.call<Value>("self").call<Value>("twice").call<X>("cself")); } },
        { "method of a new object", 1, [] (World& w) { return str(reflect::type("c24::X")->construct(w.va).call<Value>("twice")); } },

        // ----------------------------------------------------- constructors
        { "default constructor", 1, [] (World& w) { w.kept.push_back(reflect::type<X>()->construct()); return str(w.kept.back()); } },
        { "constructor", 1, [] (World& w) { return str(reflect::type<X>()->construct(w.seed)); } },
        { "constructor of a child", 1, [] (World& w) { Value v = reflect::type<Z>()->construct(w.seed); return str(v) + str(v.get<Z>().more); } },
        { "copy constructor", 1, [] (World& w) { w.kept.push_back(reflect::type<X>()->construct(w.va)); return str(w.kept.back()); } },
        { "copy constructor of a child", 1, [] (World& w) { Value v = reflect::type<Z>()->construct(w.vz); return str(v) + str(v.get<Z>().more); } },
        { "copy of a child as its parent", 1, [] (World& w) { return str(reflect::type<X>()->construct(w.vz)); } },
        { "move constructor", 5, [] (World& w) { return str(reflect::type<X>()->construct(w.vo.rvalue())); } },
        { "constructor from a convertible", 1, [] (World& w) { return str(reflect::type<X>()->call<Value>("c24::X", w.vy.convert<Value>(reflect::type<X>()))); } },
        { "new", 2, [] (World&) { Value p = reflect::type<X>()->alloc(); std::unique_ptr<X> own(p.get<X*>()); return str(*own); } },
        { "new child", 2, [] (World&) { Value p = reflect::type<Z>()->alloc(); std::unique_ptr<Z> own(p.get<Z*>()); return str(*own); } },
        { "new copy", 2, [] (World& w) { std::unique_ptr<X> own(reflect::type<X>()->call<X*>("new", w.va)); return str(*own); } },
        { "constructor of a container", 1, [] (World& w) {
                Value v = reflect::type<std::vector<X> >()->construct(w.vvec);
                return str(v.call<size_t>("size")); } },
        { "constructor of a map", 1, [] (World& w) {
                Value v = reflect::type<std::map<std::string, X> >()->construct(w.vmap);
                return str(v.call<size_t>("size")); } },

        // ------------------------------------------------------------ values
        { "Value of a temporary", 1, [] (World& w) { w.kept.push_back(Value(X(w.seed))); return str(w.kept.back()); } },
        { "Value of an rvalue", 5, [] (World& w) { w.kept.push_back(Value(std::move(w.a))); return str(w.kept.back()); } },
        { "Value of a child", 1, [] (World& w) { Value v(Z(w.seed)); return str(v); } },
        { "Value::copy", 1, [] (World& w) { w.kept.push_back(w.va.copy()); return str(w.kept.back()); } },
        { "Value::copy of a const", 1, [] (World& w) { return str(w.vc.copy()); } },
        { "Value::copy of a child", 1, [] (World& w) { return str(w.vz.copy()); } },
        { "Value::copy of an rvalue", 1, [] (World& w) { return str(w.vo.rvalue().copy()); } },
        { "Value::copy of a container", 1, [] (World& w) { return str(w.vvec.copy().call<size_t>("size")); } },
        { "Value::move", 5, [] (World& w) { Value v = w.vo.move(); w.kept.push_back(v); return str(v); } },
        { "Value::move of a reference", 5, [] (World& w) { Value v(w.va); Value m = v.move(); return str(m) + str(v); } },
        { "cast by value", 1, [] (World& w) { return str(reflect::cast<X>(w.va)); } },
        { "cast of a child", 1, [] (World& w) { return str(reflect::cast<X>(w.vz)); } },
        { "cast of a convertible", 1, [] (World& w) { return str(reflect::cast<X>(w.vy)); } },
        { "cast to a number", 1, [] (World& w) { return str(reflect::cast<int64_t>(w.vy)); } },
        { "cast of an rvalue", 5, [] (World& w) { Value v = w.vo.rvalue(); return str(reflect::cast<X>(v)); } },
        { "convert", 1, [] (World& w) { return str(w.vy.convert<X>(reflect::type<X>())); } },
        { "convert to a Value", 1, [] (World& w) { w.kept.push_back(w.vy.convert<Value>(reflect::type<X>())); return str(w.kept.back()); } },
        { "assign", 1, [] (World& w) { w.va.assign(w.vo); return str(w.a); } },
        { "assign a child", 1, [] (World& w) { w.va.assign(w.vz); return str(w.a); } },
        { "assign a temporary", 1, [] (World& w) { w.va.assign(X(w.seed)); return str(w.a); } },
        { "assign an rvalue", 5, [] (World& w) { w.va.assign(w.vo.rvalue()); return str(w.a); } },
        { "assign to an owner", 1, [] (World& w) { w.vo.assign(w.vc); return str(w.vo); } },
        { "assign a container", 0, [] (World& w) { std::vector<X> v(3, X(1)); w.vvec.assign(v); return str(w.vec.size()); } },
        { "assign a field", 1, [] (World& w) { w.vz.field<Value>("more").assign(w.va); return str(w.z.more); } },
        { "field by value", 1, [] (World& w) { return str(w.vz.field<X>("more")); } },
        { "field of a Doc", 1, [] (World& w) { return str(w.vdoc.field<Value>("x").call<Value>("twice")); } },

        // --------------------------------------------------------- operators
        { "+", 1, [] (World& w) { return str(w.va + w.vo); } },
        { "+ child", 1, [] (World& w) { return str(w.va + w.vz); } },
        { "+ plain", 1, [] (World& w) { return str(w.va + w.c); } },
        { "+=", 1, [] (World& w) { return str(w.va += w.vo); } },
        { "==", 1, [] (World& w) { return str(int64_t(w.va == w.vc)); } },
        { "<", 1, [] (World& w) { return str(int64_t(w.va < w.vc)); } },
        { "++x", 1, [] (World& w) { return str(++w.va); } },
        { "x++", 0, [] (World& w) { return str(w.va++) + str(w.a); } },
        { "-x", 1, [] (World& w) { return str(w.va.call<Value>("operator-")); } },
        { "!x", 1, [] (World& w) { return str(int64_t(!w.va)); } },
        { "bool(x)", 1, [] (World& w) { return str(int64_t(bool(w.va))); } },
        { "x(a, b)", 1, [] (World& w) { return str(w.va(w.vo, w.vz)); } },
        { "*x", 1, [] (World& w) { return str(*w.va); } },
        { "x[i]", 1, [] (World& w) { return str(w.va[w.seed]); } },
        { "sum of results", 1, [] (World& w) { return str(w.va + (w.vo + w.vc) + w.vz); } },

        // -------------------------------------------------------- containers
        { "push_back a copy", 1, [] (World& w) { w.vvec.call<void>("push_back", w.va); return str(w.vec.back()) + str(w.vec.size()); } },
        { "push_back a child", 1, [] (World& w) { w.vvec.call<void>("push_back", w.vz); return str(w.vec.back()); } },
        { "push_back an rvalue", 5, [] (World& w) { w.vvec.call<void>("push_back", w.vo.rvalue()); return str(w.vec.back()); } },
        { "push_back an element", 1, [] (World& w) { w.vvec.call<void>("push_back", w.vvec[size_t(0)]); return str(w.vec.back()); } },
        { "resize", 1, [] (World& w) { w.vvec.call<void>("resize", size_t(9)); return str(w.vec.size()); } },
        { "element", 1, [] (World& w) { return str(w.vvec[size_t(1)].copy()); } },
        { "assign an element", 1, [] (World& w) { w.vvec[size_t(1)].assign(w.va); return str(w.vec[1]); } },
        { "at", 1, [] (World& w) { return str(w.vvec.call<X>("at", size_t(1))); } },
        { "new key", 1, [] (World& w) { return str(w.vmap[std::string("new")]); } },
        { "assign a new key", 0, [] (World& w) { w.vmap[std::string("new")].assign(w.va); return str(w.map["new"]); } },
        { "assign a key", 1, [] (World& w) { w.vmap[std::string("k0")].assign(w.va); return str(w.map["k0"]); } },
        { "map at", 1, [] (World& w) { return str(w.vmap.call<X>("at", std::string("k0"))); } },
        { "keys", 1, [] (World& w) { return str(w.vmap.call<Value>("keys").call<size_t>("size")); } },
        { "missing element", 1, [] (World& w) {
                try { w.vvec.call<void>("at", size_t(99)); } catch (const reflect::Error& e) { if (!thrown) return std::string(e.what()); throw; }
                return std::string(); } },

        // ---------------------------------------------------------- pointers
        { "shared reset", 1, [] (World& w) {
                std::unique_ptr<X> p(new X(w.seed)); X* raw = p.get();
                p.release(); // consumed even if it fails, once it's called.
                try { w.vsp.call<void>("reset", raw); } catch (...) { if (live().count(raw)) delete raw; throw; }
                return str(*w.sp); } },
        { "shared assign", 1, [] (World& w) { std::shared_ptr<X> p = std::make_shared<X>(w.seed); w.vsp.assign(p); return str(*w.sp); } },
        { "shared pointee", 1, [] (World& w) { return str((*w.vsp).copy()); } },
        { "assign a pointee", 1, [] (World& w) { (*w.vsp).assign(w.va); return str(*w.sp); } },
        { "unique reset", 1, [] (World& w) {
                std::unique_ptr<X> p(new X(w.seed)); X* raw = p.get();
                w.vup.call<void>("reset", raw); p.release();
                return str(*w.up); } },
        { "unique move", 0, [] (World& w) { Value v(std::move(w.up)); return str(*v); } },
        { "unique pointee", 1, [] (World& w) { return str((*w.vup).call<Value>("twice")); } },

        // ------------------------------------------------------- descriptions
        { "function added to a type", 4, [] (World& w) {
                X s(w.seed); w.type->addFunction("f", [s] { step(); return s.v; });
                Calm calm; return str(w.type->call<int64_t>("f")); } },
        { "second overload added", 4, [] (World& w) {
                X s(w.seed);
                bool was = armed; armed = false; w.type->addFunction("f", [] (int) { return int64_t(1); }); armed = was;
                try { w.type->addFunction("f", [s] { return s.v; }); }
                catch (...) { Calm calm; VF_CHECK(w.type->call<int64_t>("f", 0) == 1, "after", "the other overload is gone"); w.type.reset(new Type("c24::made")); throw; }
                Calm calm; return str(w.type->call<int64_t>("f")); } },
        { "function added to a scope", 4, [] (World& w) {
                X s(w.seed); w.scope.addFunction("f", [s] { step(); return s.v; });
                Calm calm; return str(w.scope.call<int64_t>("f")); } },
        { "trait added", 4, [] (World& w) { w.type->addTrait("t", w.a); Calm calm; return str(w.type->getValue<X>("t")); } },
        { "trait added from a temporary", 4, [] (World& w) { w.type->addTrait("t", X(w.seed)); Calm calm; return str(w.type->getValue<X>("t")); } },
        { "trait of a scope", 4, [] (World& w) { w.scope.addTrait("t", X(w.seed)); Calm calm; return str(w.scope.getValue<Value>("t")); } },
        { "function object", 1, [] (World& w) { X s(w.seed); Function f("f", [s] (X x) { step(); return X(s.v + x.v); }); return str(f.call<X>(w.va)); } },
        { "functions moved", 1, [] (World& w) {
                X s(w.seed); Function f("f", [s] (X x) { step(); return X(s.v + x.v); }); Function g(std::move(f));
                return str(g.call<Value>(w.va)); } },

        // --------------------------------------------------------------- json
        { "read a document", 2, [] (World& w) { return readDoc(w, w.text, true); } },
        { "read over a document", 3, [] (World& w) { return readDoc(w, w.text, false); } },
        { "read a broken document", 3, [] (World& w) { return readDoc(w, w.text.substr(0, w.text.size() * 2 / 3), false); } },
        { "read an object", 1, [] (World& w) { std::istringstream in("17"); rj::Reader r(in); rj::parse(r, w.a); return str(w.a); } },
        { "read a list", 0, [] (World& w) { std::istringstream in("[1,2,3,4]"); rj::Reader r(in); rj::parse(r, w.vec); return str(w.vec.size()) + str(w.vec.back()); } },
        { "read a pointer", 3, [] (World& w) { std::istringstream in("5"); rj::Reader r(in); std::unique_ptr<X> p; rj::parse(r, p); w.up = std::move(p); return str(*w.up); } },
        { "read a shared pointer", 3, [] (World& w) { std::istringstream in("5"); rj::Reader r(in); w.sp.reset(); rj::parse(r, w.sp); return str(*w.sp); } },
        { "read a list of pointers", 2, [] (World&) {
                std::istringstream in("[1,null,3]"); rj::Reader r(in); std::vector<std::shared_ptr<X> > p; rj::parse(r, p);
                return str(p.size()) + str(*p[0]) + str(*p[2]); } },
        { "read a raw pointer", 3, [] (World& w) { std::istringstream in("6"); rj::Reader r(in); rj::parse(r, w.raw); return str(*w.raw); } },
        { "read by a handler", 0, [] (World& w) {
                std::istringstream in("{\"a\":[1,2],\"b\":[3]}"); rj::Reader r(in); int64_t sum = 0;
                rj::parseObject(r, [&] (const std::string&) {
                        step();
                        rj::parseArray(r, [&] (size_t) { step(); X x; rj::parse(r, x); sum += x.v; });
                    });
                return str(sum) + str(w.a); } },
        { "print a document", 1, [] (World& w) { return printDoc(w.doc, 0); } },
        { "print a document prettily", 1, [] (World& w) { return printDoc(w.doc, rj::Writer::Pretty); } },
        { "print a list", 1, [] (World& w) { std::ostringstream out; rj::Writer wr(out); rj::print(wr, w.vec); return out.str(); } },
        { "print a map", 1, [] (World& w) { std::ostringstream out; rj::Writer wr(out); rj::print(wr, w.map); return out.str(); } },
        { "print by a handler", 1, [] (World& w) {
                std::ostringstream out; rj::Writer wr(out, rj::Writer::Pretty);
                std::vector<std::string> keys = { "a", "b" };
                rj::printObject(wr, keys, [&] (const std::string&) { step(); rj::print(wr, w.a); });
                return out.str(); } },
        { "round trip of a value", 1, [] (World& w) {
                std::stringstream ss; { rj::Writer wr(ss); rj::print(wr, w.vvec); }
                rj::Reader r(ss); std::vector<X> v; rj::parse(r, v);
                return str(v.size()); } },
    };
    return *list;
}

size_t alive() { return live().size(); }

// The descriptors involved, as they print themselves.
std::string descriptors()
{
    std::string s;
    for (auto* t : { reflect::type<X>(), reflect::type<Y>(), reflect::type<Z>(), reflect::type<Doc>(), reflect::type<std::vector<X> >(),
                reflect::type<std::map<std::string, X> >(), reflect::type<std::shared_ptr<X> >(), reflect::type<std::unique_ptr<X> >() })
        s += t->print();
    return s;
}

struct Disarm { ~Disarm() { armed = false; memory = false; } };

std::string runArmed(World& w, const Op& op, long blast, bool mem, unsigned k)
{
    Disarm d;
    steps = 0; fuse = blast; kind = k; memory = mem; thrown = nullptr; armed = true;
    return op.run(w);
}

void prepare(World& w, const std::string& text, const std::string& before)
{
    w.text = text;
    if (before.size()) { std::istringstream in(before); rj::Reader r(in); rj::parse(r, w.doc); }
}

void others()
{
    std::thread t([] {
            reflect::type("c24::Doc")->field("x");
            reflect::type<std::vector<std::map<std::string, Y> > >();
            std::istringstream in("{\"n\":3}"); rj::Reader r(in); Doc d; rj::parse(r, d);
            std::ostringstream out; rj::Writer w(out); rj::print(w, d);
        });
    t.join();
    event("uses by another thread");
}

// A description that fails: other types can still be looked up, from here and elsewhere.
template<int N> void undescribed(Rng& r)
{
    describe(VF_STR("the description of a type fails, " << N));
    bool json = N % 2;
    std::string what;
    {
        Disarm d;
        steps = 0; fuse = 1 + r.below(2); kind = r.next() % 7; memory = false; thrown = nullptr; armed = true;
        bool through = false;
        try {
            if (json) { Holder<N> h; std::istringstream in("{\"n\":2,\"u\":{\"a\":3}}"); rj::Reader reader(in); rj::parse(reader, h); }
            else reflect::type<Undescribed<N> >();
        }
        catch (...) {
            through = true;
            VF_CHECK(thrown && std::current_exception() == thrown, "exception", "the exception that came through isn't the one raised by the description");
        }
        VF_CHECK(through, "swallowed", "the exception raised by a description never came through");
        thrown = nullptr;
    }
    others();
    std::istringstream in("{\"n\":3,\"x\":4}"); rj::Reader reader(in); Doc doc; rj::parse(reader, doc);
    VF_CHECK(reader && doc.n == 3 && doc.x.v == 4, "after", "documents aren't read anymore");
    event("descriptions failed");
}
template<int... N> struct Undescribeds
{
    static void next(Rng& r)
    {
        static size_t at = 0;
        static void (*all[])(Rng&) = { &undescribed<N>... };
        if (at < sizeof...(N)) all[at++](r);
    }
};

void run(uint64_t idx, Rng& rng)
{
    if (rng.chance(5)) { Undescribeds<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>::next(rng); return; }

    const auto& list = ops();
    const Op& op = list[idx % list.size()];
    bool mem = (idx / list.size()) % 3 == 2 && op.strong != 2 && op.strong != 3;
    int64_t seed = rng.range(0, 1000);
    std::string text = docText(rng, 2), before = rng.chance(70) ? docText(rng, 2) : "";
    describe(VF_STR(op.name << (mem ? ", allocations failing" : "") << ", seed " << seed << ", document " << text << " over " << before));

    const size_t base = alive(); // the state of a functor, and the leftovers of failures.
    std::string desc = descriptors();

    // What it does if nothing goes wrong, and how many chances there are for that.
    std::string expected; long total;
    {
        World w(seed); prepare(w, text, before);
        expected = runArmed(w, op, 0, mem, 0);
        total = steps;
        w.digest();
    }
    VF_EQ(alive(), base, "leak", "objects alive after the operation");
    if (!total) { trivial(); return; }

    std::vector<long> blasts;
    for (long i = 1; i <= total; ++i) blasts.push_back(i);
    size_t most = thorough() ? 200 : 24;
    if (blasts.size() > most) { rng.shuffle(blasts); blasts.resize(most); }

    for (long blast : blasts) {
        unsigned k = rng.next() % 7;
        describe(VF_STR(op.name << ", " << (mem ? "allocation or step " : "step ") << blast << " of " << total << " fails, seed " << seed << ", document " << text << " over " << before));
        {
            World w(seed); prepare(w, text, before);
            std::string was = w.digest();
            size_t had = alive();
            bool through = false;
            std::string got;
            try { got = runArmed(w, op, blast, mem, k); }
            catch (const Stop&) { throw; }
            catch (...) {
                through = true;
                VF_CHECK(thrown, "exception", "an exception that isn't that of the user");
                VF_CHECK(std::current_exception() == thrown, "exception", "the exception that came through isn't the one raised");
            }
            VF_CHECK(through, "swallowed", "the exception raised by user code never came through, the result is " << got);
            thrown = nullptr;
            event(mem ? "allocations failed" : "exceptions raised");

            std::string is = w.digest();
            bool halfway = op.strong == 4 && mem;
            if (op.strong == 1 || op.strong == 2 || op.strong == 4 || (op.strong == 5 && blast == 1)) {
                if (!halfway) VF_EQ(is, was, "changed", "contents after the exception");
                if (!halfway) VF_EQ(alive(), had, "leak", "objects alive after the exception");
                if (!halfway) event("states compared");
                std::string again = runArmed(w, op, 0, mem, 0);
                VF_EQ(again, expected, "after", "result of the same operation afterwards, on the same objects");
            }
        }
        VF_EQ(alive(), base, "leak", "objects alive once all is destroyed");
        {
            World w(seed); prepare(w, text, before);
            std::string again = runArmed(w, op, 0, mem, 0);
            VF_EQ(again, expected, "after", "result of the same operation afterwards");
        }
        distinct(VF_STR(op.name << mem << blast << (k % 7)));
        sample(VF_STR(op.name << ", " << (mem ? "allocation" : "step") << " " << blast << " of " << total));
    }
    VF_EQ(descriptors(), desc, "descriptors", "descriptors afterwards");
    VF_EQ(alive(), base, "leak", "objects alive at the end");
    if (rng.chance(10)) others();
    event("operations");
}

void init()
{
    fn(0);
    // Descriptions are made once: all those needed are there before anything fails.
    for (auto& op : ops()) {
        World w(1); w.text = "{\"x\":1,\"list\":[1],\"map\":{\"a\":1},\"shared\":1,\"unique\":1,\"next\":{\"x\":1},\"kids\":[{}],\"deep\":{\"a\":[1]}}";
        op.run(w);
    }
}

} // namespace

const Harness harness = { "c24", run, init, nullptr };
