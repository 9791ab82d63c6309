// C09: relations and listings of types against models: random graphs of types made at run time, and C++ type traits.
#include "model.h"

#include <type_traits>

using namespace vf;
using namespace vm;
using reflect::Type;
using reflect::Value;
using reflect::Argument;

namespace c9 {

// Every combination of special members: default and copy construction, move construction, copy and move assignment.
enum Has { No_, Yes, Del };
#define C9_CLASS(N, D, CC, MC, CA, MA)                  \
    struct N                                            \
    {                                                   \
        int v;                                          \
        explicit N(int v) : v(v) {}                     \
        D CC MC CA MA                                   \
    };
#define D1(N) N() : v(1) {}
#define CC1(N) N(const N& o) : v(o.v) {}
#define CCD(N) N(const N& o) = delete;
#define MC1(N) N(N&& o) : v(o.v) { o.v = -1; }
#define MCD(N) N(N&& o) = delete;
#define CA1(N) N& operator=(const N& o) { v = o.v; return *this; }
#define CAD(N) N& operator=(const N& o) = delete;
#define MA1(N) N& operator=(N&& o) { v = o.v; o.v = -1; return *this; }
#define MAD(N) N& operator=(N&& o) = delete;

C9_CLASS(S0, D1(S0), CC1(S0), MC1(S0), CA1(S0), MA1(S0))
C9_CLASS(S1,       , CC1(S1), MC1(S1), CA1(S1), MA1(S1))
C9_CLASS(S2, D1(S2), CCD(S2), MC1(S2), CA1(S2), MA1(S2))
C9_CLASS(S3,       , CCD(S3), MC1(S3), CAD(S3), MA1(S3))
C9_CLASS(S4, D1(S4), CCD(S4), MCD(S4), CAD(S4), MAD(S4))
C9_CLASS(S5, D1(S5), CC1(S5),        , CA1(S5),        )   // moves are copies
C9_CLASS(S6, D1(S6), CC1(S6), MCD(S6), CA1(S6), MAD(S6))
C9_CLASS(S7, D1(S7), CC1(S7), MC1(S7), CAD(S7), MAD(S7))
C9_CLASS(S8,       , CC1(S8), MC1(S8), CA1(S8), MAD(S8))
C9_CLASS(S9, D1(S9), CCD(S9), MC1(S9), CAD(S9), MAD(S9))
C9_CLASS(S10,      , CCD(S10), MCD(S10), CA1(S10), MAD(S10))
struct S11 { const int v; S11() : v(3) {} explicit S11(int v) : v(v) {} };
struct S12 { int v; S12() : v(4) {} explicit S12(int v) : v(v) {} S12(S12& o) : v(o.v) {} S12& operator=(const S12&) = delete; };  // copied from mutable objects only
struct S13 { int v; std::unique_ptr<int> p; S13() : v(5) {} explicit S13(int v) : v(v) {} };
// A child has the special members of its own only.
struct S14 : public S0 { S14() : S0(6) {} explicit S14(int v) : S0(v) {} S14(const S14&) = delete; S14(S14&& o) : S0(o.v) {} };

struct Conv
{
    int v;
    Conv() : v(7) {}
    explicit Conv(int v) : v(v) {}
    operator S0() const { return S0(v); }
    operator double() const { return v + 0.5; }
    operator std::string() const { return std::to_string(v); }
};
struct ConvChild : public Conv { ConvChild() {} explicit ConvChild(int v) : Conv(v) {} operator int() const { return v; } };

} // namespace c9

using namespace c9;

#define C9_TYPE(N) reflectType(c9::N) { reflectPlumbing(); reflectAllocPlumbing(); reflectField(v); }
C9_TYPE(S0) C9_TYPE(S1) C9_TYPE(S2) C9_TYPE(S3) C9_TYPE(S4) C9_TYPE(S5) C9_TYPE(S6) C9_TYPE(S7) C9_TYPE(S8) C9_TYPE(S9)
C9_TYPE(S10) C9_TYPE(S11) C9_TYPE(S12) C9_TYPE(S13)
reflectType(c9::S14) { reflectParent(c9::S0); reflectPlumbing(); reflectAllocPlumbing(); }
reflectType(c9::Conv) { reflectPlumbing(); reflectField(v); reflectOpCast(c9::S0); reflectOpCast(double); type_->addFunction("operator std::string()", &T_::operator std::string); }
reflectType(c9::ConvChild) { reflectParent(c9::Conv); reflectPlumbing(); reflectOpCast(int); }

namespace {

// ------------------------------------------------------------------ listings of any type

void listings(const Type* t, const std::set<std::string>* fns, const std::set<std::string>* fields)
{
    auto check = [&] (const std::vector<std::string>& l, const char* what, const std::set<std::string>* want,
            const std::function<bool(const std::string&)>& has, const std::function<void(const std::string&)>& get) {
        for (size_t i = 1; i < l.size(); ++i)
            VF_CHECK(l[i - 1] < l[i], "listing", t->id() << " lists " << what << " " << l[i - 1] << " before " << l[i]);
        for (auto& n : l) {
            VF_CHECK(has(n), "listing", t->id() << " lists " << what << " " << n << " which it doesn't have");
            VF_CHECK(!raises([&] { get(n); }), "listing", t->id() << " lists " << what << " " << n << " which isn't found");
        }
        if (want) VF_CHECK(std::vector<std::string>(want->begin(), want->end()) == l, "listing",
                t->id() << " lists " << what << " " << join(l) << ", expected " << join(std::vector<std::string>(want->begin(), want->end())));
        std::vector<std::string> odd = { "", "nope", "operator", t->id() + " ", "new " };
        for (auto& n : l) { odd.push_back(n + "x"); odd.push_back(n.substr(0, n.size() - 1)); }
        for (auto& n : odd) {
            if (std::find(l.begin(), l.end(), n) != l.end()) continue;
            VF_CHECK(!has(n), "listing", t->id() << " has " << what << " " << quote(n) << " which it doesn't list");
            VF_CHECK(raises([&] { get(n); }), "listing", t->id() << " found " << what << " " << quote(n) << " which it doesn't list");
        }
        event("listed names", l.size());
    };
    check(t->functions(), "function", fns, [&] (const std::string& n) { return t->hasFunction(n); }, [&] (const std::string& n) { t->function(n); });
    check(t->fields(), "field", fields, [&] (const std::string& n) { return t->hasField(n); }, [&] (const std::string& n) { t->field(n); });
    event("listings");
}

// ------------------------------------------------------------------ random graphs

struct N
{
    std::unique_ptr<Type> t;
    int parent = -1;
    std::string kind;    // of pointer, empty if it's not one
    int pointee = -1;
    std::set<std::string> fns, fields;
    std::map<std::string, int> tag;   // what the functions return
};

bool derived(const std::vector<N>& g, int c, int p)
{
    if (c == p) return true;
    if (g[c].pointee >= 0 && g[p].pointee >= 0) return g[c].kind == g[p].kind && derived(g, g[c].pointee, g[p].pointee);
    return g[c].parent >= 0 && derived(g, g[c].parent, p);
}
bool pure(const std::vector<N>& g, int t) { for (; t >= 0; t = g[t].parent) if (g[t].pointee >= 0) return false; return true; }

void graph(Rng& r)
{
    static const char* kinds[] = { "*", "std::shared_ptr", "std::unique_ptr" };
    std::vector<N> g;
    int n = r.range(2, 10);
    std::string shape;
    for (int i = 0; i < n; ++i) {
        N x;
        std::string id = "g" + std::to_string(i);
        bool ptr = i && r.chance(35);
        if (ptr) { x.kind = kinds[r.below(3)]; x.pointee = r.below(i); }
        x.t.reset(new Type(id));
        if (i && r.chance(60)) {
            int p = r.below(i);
            if (!ptr || pure(g, p)) x.parent = p;
        }
        // either order
        auto setParent = [&] { if (x.parent >= 0) x.t->parent(g[x.parent].t.get()); };
        if (r.chance(50)) setParent();
        if (ptr) {
            VF_CHECK(!x.t->isPointer(), "pointer", "is a pointer before it's made one");
            VF_CHECK(raises([&] { x.t->pointee(); }) && raises([&] { x.t->pointer(); }), "pointer", "has a pointee before it's made a pointer");
            x.t->setPointer(x.kind, g[x.pointee].t.get());
            VF_CHECK(raises([&] { x.t->setPointer("other", g[0].t.get()); }), "pointer", "made a pointer twice");
        }
        for (int k = r.below(5); k > 0; --k) {
            std::string name(1, "fghij"[r.below(5)]);
            if (r.chance(20)) name = "operator g" + std::to_string(r.below(n)) + "()";
            if (x.fields.count(name) || x.fns.count(name)) continue;
            int tag = i * 10 + k;
            x.t->addFunction(name, [tag] { return tag; });
            x.fns.insert(name);
            x.tag[name] = tag;
        }
        for (int k = r.below(4); k > 0; --k) {
            std::string name(1, "ijklm"[r.below(5)]);
            if (x.fields.count(name) || x.fns.count(name)) continue;
            x.t->addField<int>(name, i * 16 + k * 4);
            x.fields.insert(name);
        }
        setParent();
        VF_EQ((const void*) x.t->parent(), (const void*) (x.parent >= 0 ? g[x.parent].t.get() : nullptr), "parent", "parent");
        shape += VF_STR(id << (x.parent >= 0 ? ":" + std::to_string(x.parent) : "") << (ptr ? " " + x.kind + std::to_string(x.pointee) : "") << join(std::vector<std::string>(x.fns.begin(), x.fns.end())) << join(std::vector<std::string>(x.fields.begin(), x.fields.end())) << "; ");
        g.push_back(std::move(x));
    }
    describe(shape);
    distinct(shape);

    for (int a = 0; a < n; ++a) {
        for (int b = 0; b < n; ++b) {
            bool want = derived(g, a, b);
            VF_EQ(g[a].t->isChildOf(g[b].t.get()), want, "relation", "g" << a << " is a child of g" << b);
            VF_EQ(g[b].t->isParentOf(g[a].t.get()), want, "relation", "g" << b << " is a parent of g" << a);
            event(want ? "related pairs" : "unrelated pairs");

            std::string op = "operator g" + std::to_string(b) + "()";
            bool conv = false;
            int owner = a;
            for (int t = a; t >= 0; t = g[t].parent) if (g[t].fns.count(op)) { conv = true; owner = t; break; }
            VF_EQ(g[a].t->hasConverter(g[b].t.get()), conv, "converter", "g" << a << " converts to g" << b);
            int got = -1;
            bool raised = raises([&] { got = g[a].t->converter(g[b].t.get()).call<int>(); });
            VF_EQ(raised, !conv, "converter", "looking up the conversion of g" << a << " to g" << b << " raised");
            if (conv) { VF_EQ(got, g[owner].tag[op], "converter", "conversion found"); event("converters"); }
        }
        VF_EQ(g[a].t->isPointer(), g[a].pointee >= 0, "pointer", "g" << a << " is a pointer");
        VF_EQ(g[a].t->is("pointer"), g[a].pointee >= 0, "pointer", "g" << a << " carries the trait of pointers");
        if (g[a].pointee >= 0) {
            VF_EQ(g[a].t->pointer(), g[a].kind, "pointer", "kind");
            VF_EQ(g[a].t->pointee(), (const Type*) g[g[a].pointee].t.get(), "pointer", "pointee");
        }
        std::set<std::string> fns, fields;
        for (int t = a; t >= 0; t = g[t].parent) { fns.insert(g[t].fns.begin(), g[t].fns.end()); fields.insert(g[t].fields.begin(), g[t].fields.end()); }
        const Type* t = g[a].t.get();
        listings(t, &fns, &fields);
        // what's found is the nearest
        for (auto& f : fns) {
            int o = a;
            while (!g[o].fns.count(f)) o = g[o].parent;
            VF_EQ(t->function(f).call<int>(), g[o].tag[f], "nearest", "function " << f << " of g" << a);
            VF_EQ(t->call<int>(f), g[o].tag[f], "nearest", "call of " << f << " on g" << a);
            bool raised = raises([&] { g[a].t->function(f); });
            VF_EQ(raised, o != a, "immediate", "describing further the function " << f << " of g" << a << " raised");
            event("functions looked up");
        }
        for (auto& f : fields) {
            int o = a;
            while (!g[o].fields.count(f)) o = g[o].parent;
            VF_EQ(t->field(f).offset() / 16, size_t(o), "nearest", "owner of the field " << f << " of g" << a);
            VF_EQ((const void*) &t->field(f), (const void*) &static_cast<const Type*>(g[o].t.get())->field(f), "nearest", "field " << f << " of g" << a);
        }
        bool ctor = fns.count(t->id());
        VF_CHECK(!t->isCopiable() && !t->isMovable(), "copiable", "copiable without constructor " << ctor);
        VF_CHECK(raises([&] { t->construct(); }), "construct", "constructed without constructor");
        VF_CHECK(raises([&] { t->alloc(); }), "construct", "allocated without allocator");
    }
    event("graphs");
}

// ------------------------------------------------------------------ C++ types

template<typename T, bool = std::is_move_constructible<T>::value> struct Made { static Value make(int v) { return Value(T(v)); } };
template<typename T> struct Made<T, false> { static std::vector<std::shared_ptr<T>>& all() { static auto* x = new std::vector<std::shared_ptr<T>>; return *x; }
    static Value make(int v) { all().push_back(std::make_shared<T>(v)); return Value(*all().back()); } };

template<typename T> void special(const char* name, Rng& r)
{
    const bool defCons = std::is_default_constructible<T>::value, copyCons = std::is_copy_constructible<T>::value, moveCons = std::is_move_constructible<T>::value;
    // S14 inherits its parent's.
    const bool inherits = std::is_same<T, S14>::value;
    const bool copyAssign = inherits || std::is_copy_assignable<T>::value, moveAssign = inherits || std::is_move_assignable<T>::value;
    const Type* t = reflect::type<T>();
    describe(VF_STR("special members of " << name));
    int x = r.range(10, 99);

    VF_EQ(t->isCopiable(), copyCons && moveCons, "copiable", "isCopiable");
    VF_EQ(t->isMovable(), moveCons, "movable", "isMovable");
    Value v = Made<T>::make(x);
    VF_EQ(v.get<T>().v, x, "made", "content");

    Value out;
    bool raised = raises([&] { out = v.copy(); });
    VF_EQ(raised, !t->isCopiable(), "copiable", "copying raised");
    VF_EQ(v.get<T>().v, x, "copiable", "content after copying");
    if (!raised) { VF_EQ(out.get<T>().v, x, "copiable", "copy"); VF_CHECK(out.value() != v.value(), "copiable", "the copy is the same object"); }

    Value w = Made<T>::make(x);
    out = Value();
    raised = raises([&] { out = w.move(); });
    VF_EQ(raised, !t->isMovable(), "movable", "moving raised");
    if (!raised) { VF_EQ(out.get<T>().v, x, "movable", "moved"); VF_CHECK(w.isVoid(), "movable", "not emptied"); }
    else VF_EQ(w.get<T>().v, x, "movable", "content after a move that failed");

    raised = raises([&] { out = t->construct(); });
    VF_EQ(raised, !(defCons && moveCons), "construct", "default construction raised");
    if (!raised) VF_EQ(out.type(), t, "construct", "type made");

    // allocators: by default, by copy, by move
    Value src = Made<T>::make(x);
    auto fresh = [&] (bool want, const std::function<Value()>& fn, const char* how, bool content) {
        Value p;
        bool raised = raises([&] { p = fn(); });
        VF_EQ(raised, !want, "alloc", "allocating " << how << " raised");
        if (raised) return;
        std::unique_ptr<T> obj(p.get<T*>());
        if (content) VF_EQ(obj->v, x, "alloc", "content allocated " << how);
        event("objects allocated");
    };
    fresh(defCons, [&] { return t->alloc(); }, "by default", false);
    fresh(copyCons || false, [&] { return t->call<Value>("new", src.toConst()); }, "a copy", true);
    fresh(moveCons || copyCons, [&] { return t->call<Value>("new", src.rvalue()); }, "a moved one", true);

    // assignment
    Value a = Made<T>::make(1), b = Made<T>::make(x);
    const T& nb = b.get<T>();
    raised = raises([&] { a.assign(nb); });
    VF_EQ(raised, !copyAssign, "assign", "assigning a copy raised");
    VF_EQ(a.get<T>().v, raised ? 1 : x, "assign", "content");
    VF_EQ(nb.v, x, "assign", "content of the source");
    Value c = Made<T>::make(2);
    raised = raises([&] { c.assign(b.rvalue()); });
    VF_EQ(raised, !(moveAssign || copyAssign), "assign", "assigning a moved one raised");
    VF_EQ(c.get<T>().v, raised ? 2 : x, "assign", "content");

    VF_EQ(t->hasFunction("operator="), copyAssign || moveAssign, "assign", "operator= described");
    VF_EQ(t->getValue<size_t>("sizeof"), sizeof(T), "sizeof", "sizeof");
    listings(t, nullptr, nullptr);
    std::set<std::string> fields = { "v" };
    listings(t, nullptr, &fields);
    event("special members");
    distinct(hash(name, 77));
}

void conversions(Rng& r)
{
    int x = r.range(0, 99);
    Conv c(x); ConvChild cc(x);
    const Type* types[] = { reflect::type<Conv>(), reflect::type<ConvChild>() };
    Value vals[] = { Value(c), Value(cc) };
    const Type* others[] = { reflect::type<S0>(), reflect::type<double>(), reflect::type<std::string>(), reflect::type<int>(), reflect::type<S1>(), reflect::type<Conv>(), reflect::type<bool>(), reflect::type<float>() };
    for (int i = 0; i < 2; ++i)
        for (int k = 0; k < 8; ++k) {
            bool want = k < 3 || (k == 3 && i == 1);
            describe(VF_STR(types[i]->id() << " to " << others[k]->id()));
            VF_EQ(types[i]->hasConverter(others[k]), want, "converter", "hasConverter");
            Value out;
            bool raised = raises([&] { out = vals[i].convert<Value>(others[k]); });
            VF_EQ(raised, !want, "converter", "converting raised");
            if (raised) continue;
            VF_EQ(out.type(), others[k], "converter", "type made");
            if (k == 0) VF_EQ(out.get<S0>().v, x, "converter", "result");
            if (k == 1) VF_EQ(out.get<double>(), x + 0.5, "converter", "result");
            if (k == 2) VF_EQ(out.get<std::string>(), std::to_string(x), "converter", "result");
            if (k == 3) VF_EQ(out.get<int>(), x, "converter", "result");
            event("conversions made");
        }
}

template<typename T> void pointer(const char* kind, const Type* pointee)
{
    const Type* t = reflect::type<T>();
    describe("pointer " + t->id());
    VF_CHECK(t->isPointer() && t->is("pointer"), "pointer", "isn't a pointer");
    VF_EQ(t->pointer(), std::string(kind), "pointer", "kind");
    VF_EQ(t->pointee(), pointee, "pointer", "pointee");
}

void builtin()
{
    for (int a = 0; a < TypeCount; ++a)
        for (int b = 0; b < TypeCount; ++b) {
            VF_EQ(desc(a)->isChildOf(desc(b)), isBase(b, a), "relation", name(a) << " is a child of " << name(b));
            VF_EQ(desc(b)->isParentOf(desc(a)), isBase(b, a), "relation", name(b) << " is a parent of " << name(a));
            VF_EQ(desc(a)->hasConverter(desc(b)), convertible(a, b), "converter", name(a) << " converts to " << name(b));
            event(isBase(b, a) ? "related pairs" : "unrelated pairs");
        }
    for (int a = 0; a < TypeCount; ++a) {
        listings(desc(a), nullptr, nullptr);
        if (!desc(a)->isPointer()) VF_CHECK(raises([&] { desc(a)->pointee(); }) && raises([&] { desc(a)->pointer(); }), "pointer", name(a) << " has a pointee");
    }
    static const bool copiable[TypeCount] = { 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1 };
    static const bool movable[TypeCount] = { 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 };
    for (int a = TBool; a < TypeCount; ++a) {
        VF_EQ(desc(a)->isCopiable(), copiable[a], "copiable", name(a) << " is copiable");
        VF_EQ(desc(a)->isMovable(), movable[a], "movable", name(a) << " is movable");
    }
    pointer<int*>("*", reflect::type<int>());
    pointer<const int*>("*", reflect::type<int>());
    pointer<int**>("*", reflect::type<int*>());
    pointer<vt::B*>("*", reflect::type<vt::B>());
    pointer<std::shared_ptr<vt::B> >("std::shared_ptr", reflect::type<vt::B>());
    pointer<std::unique_ptr<std::string> >("std::unique_ptr", reflect::type<std::string>());
    pointer<std::shared_ptr<int>*>("*", reflect::type<std::shared_ptr<int> >());
    VF_CHECK(reflect::type<vt::C>()->isChildOf<vt::A>() && reflect::type<vt::A>()->isParentOf<vt::C>() && !reflect::type<vt::A>()->isChildOf<vt::C>(), "relation", "typed queries");
    VF_CHECK(reflect::type<vt::Cv>()->hasConverter<int>() && !reflect::type<vt::Cv>()->hasConverter<long>(), "converter", "typed queries");
    VF_CHECK(&reflect::type<vt::Cv>()->converter<int>() == &reflect::type<vt::Cv>()->converter(reflect::type<int>()), "converter", "typed lookup");
    // an ambiguous conversion
    Type t("twice");
    t.addFunction("operator int()", [] { return 1; });
    t.addFunction("operator int()", [] (const std::string&) { return 1; });
    VF_CHECK(t.hasConverter<int>() && raises([&] { t.converter<int>(); }), "converter", "ambiguous converters");
    event("built-in types");
}

void run(uint64_t idx, Rng& r)
{
    if (idx == 0) { builtin(); return; }
    if (idx % 10) { graph(r); return; }
    special<S0>("S0", r); special<S1>("S1", r); special<S2>("S2", r); special<S3>("S3", r); special<S4>("S4", r); special<S5>("S5", r);
    special<S6>("S6", r); special<S7>("S7", r); special<S8>("S8", r); special<S9>("S9", r); special<S10>("S10", r); special<S11>("S11", r);
    special<S12>("S12", r); special<S13>("S13", r); special<S14>("S14", r);
    conversions(r);
}

} // namespace

const vf::Harness harness = { "c09", &run, nullptr, nullptr };
