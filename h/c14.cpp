// C14: traits put at random on run-time types, functions, fields and scopes against a table of what was put where.
#include "types.h"
#include <limits>

using namespace vf;
using namespace vt;
using reflect::Scope;
using reflect::Type;
using reflect::Registry;
using reflect::Value;
using reflect::Traits;

// ------------------------------------------------------------------ static descriptions

namespace c14 {
struct S { int f = 1; int g = 2; int m() const { return f; } int n() { return g; } };
struct K : S { int h = 3; int m() const { return 5; } };
int glob(int x) { return x; }
}
reflectType(c14::S)
{
    reflectPlumbing();
    reflectTypeTrait(marked);
    reflectTypeValue(answer, 42);
    reflectTypeValue(label, "a literal");
    reflectTypeValue(names, std::vector<std::string>({ "a", "b" }));
    reflectField(f);
    reflectFieldTrait(f, hidden);
    reflectFieldValue(f, unit, std::string("mm"));
    reflectField(g);
    reflectFn(m);
    reflectFnTrait(m, pure);
    reflectFnValue(m, cost, 1.5);
    reflectFn(n);
}
reflectType(c14::K) { reflectParent(c14::S); reflectPlumbing(); reflectTypeTrait(kid); reflectField(h); reflectFn(m); reflectFnTrait(m, other); }
namespace c14 { struct alignas(64) Aligned { char c; virtual ~Aligned() {} }; }
reflectType(c14::Aligned) { reflectPlumbing(); }
#define SIZES(X) X(1) X(3) X(64) X(65) X(100) X(300) X(70000)
#define X(N) namespace c14 { struct Sized##N { char c[N]; }; } reflectType(c14::Sized##N) { reflectPlumbing(); }
SIZES(X)
#undef X
reflectScope(c14) { reflectScopeTrait(space); reflectScopeValue(version, std::string("1.2")); reflectGlobalFn(c14::glob); }

namespace {

// ------------------------------------------------------------------ values put

enum Kind { None, Int, Long, Bool, Double, Text, Obj, Child, Vec, Map, Shared, TypePtr, Opaque, Raw, Lit, KindCount };

struct Put
{
    Kind kind;
    int64_t seed;
    const void* id; // identity of what was referred to, if it was.
};

int theInt(const Put& p) { return int(p.seed * 7 - 1000); }
long theLong(const Put& p) { return long(p.seed) * 1000000007L; }
double theDouble(const Put& p) { return p.seed / 8.0; }
std::string theText(const Put& p) { return std::string(p.seed % 40, 'a' + p.seed % 26) + std::to_string(p.seed); }
std::vector<int> theVec(const Put& p) { std::vector<int> v; for (int i = 0; i < p.seed % 6; ++i) v.push_back(i * p.seed); return v; }
std::map<std::string, int> theMap(const Put& p) { std::map<std::string, int> v; for (int i = 0; i < p.seed % 6; ++i) v[std::to_string(i)] = i * p.seed; return v; }
const Type* theType(const Put& p) { static const Type* all[] = { reflect::type<int>(), reflect::type<A>(), reflect::type<std::string>() }; return all[p.seed % 3]; }
std::shared_ptr<A> theShared(const Put& p) { static std::vector<std::shared_ptr<A> > all; if (all.empty()) for (int i = 0; i < 5; ++i) all.emplace_back(new A(i)); return all[p.seed % 5]; }
A* theRaw(const Put& p) { static A all[3]; return p.seed % 4 == 3 ? nullptr : &all[p.seed % 3]; }

const char lits[3][16] = { "first literal", "", "x" };
const char* theLit(const Put& p) { return lits[p.seed % 3]; }

// Kept for as long as the traits that refer to them.
std::vector<std::shared_ptr<void> >& keep() { static auto* v = new std::vector<std::shared_ptr<void> >; return *v; }

template<typename T> void put(Traits& t, const std::string& name, Put& p, T x, Rng& r)
{
    switch (r.below(5)) {
    case 0: t.addTrait(name, std::move(x)); break;
    case 1: t.addTrait(name, Value(std::move(x))); break;
    case 2: { auto s = std::make_shared<T>(x); keep().push_back(s); p.id = s.get(); t.addTrait(name, *s); } break;
    case 3: { auto s = std::make_shared<T>(x); keep().push_back(s); p.id = s.get(); t.addTrait(name, static_cast<const T&>(*s)); } break;
    default: { Value v(std::move(x)); p.id = v.value(); t.addTrait(name, v); } break;
    }
}
void putAny(Traits& t, const std::string& name, Put& p, Rng& r)
{
    switch (p.kind) {
    case None: if (r.chance(50)) t.addTrait(name); else t.addTrait(name, Value()); break;
    case Int: put<int>(t, name, p, theInt(p), r); break;
    case Long: put<long>(t, name, p, theLong(p), r); break;
    case Bool: put<bool>(t, name, p, p.seed & 1, r); break;
    case Double: put<double>(t, name, p, theDouble(p), r); break;
    case Text: put<std::string>(t, name, p, theText(p), r); break;
    case Obj: put<A>(t, name, p, A(p.seed), r); break;
    case Child: put<C>(t, name, p, C(p.seed), r); break;
    case Vec: put<std::vector<int> >(t, name, p, theVec(p), r); break;
    case Map: put<std::map<std::string, int> >(t, name, p, theMap(p), r); break;
    case Shared: put<std::shared_ptr<A> >(t, name, p, theShared(p), r); break;
    case TypePtr: put<const Type*>(t, name, p, theType(p), r); break;
    case Raw: put<A*>(t, name, p, theRaw(p), r); break;
    case Lit: { // arrays are kept as pointers.
        const char (&lit)[16] = lits[p.seed % 3];
        if (r.chance(50)) t.addTrait(name, lit); else t.addTrait(name, Value(lit));
        break;
    }
    default: { Value v(theInt(p)); t.addTrait(name, v.toConst()); } break; // an opaque value.
    }
}

template<typename T, typename Wrong> void back(const Traits& t, const std::string& name, const Put& p, const T& want)
{
    VF_CHECK(t.getValue<T>(name) == want, "value", "of " << name);
    VF_CHECK(t.getValue<const T&>(name) == want, "value", "reference of " << name);
    if (p.id) VF_EQ((const void*) &t.getValue<const T&>(name), p.id, "value", "identity of " + name);
    VF_EQ((const void*) &t.getValue<const T&>(name), (const void*) &t.getValue<const T&>(name), "value", "identity of " + name);
    Value v = t.getValue<Value>(name);
    VF_EQ(v.type(), reflect::type<T>(), "value", "type of " + name);
    VF_CHECK(v.get<T>() == want, "value", "opaque " << name);
    VF_CHECK(raises([&] { t.getValue<Wrong>(name); }), "unrelated", name << " as another type");
    VF_CHECK(raises([&] { t.getValue<U>(name); }), "unrelated", name << " as U");
    event("values read");
}

void check(const Traits& t, const std::string& name, const Put& p)
{
    VF_CHECK(t.is(name), "present", name << " isn't there");
    switch (p.kind) {
    case None:
        VF_CHECK(t.getValue<Value>(name).isVoid(), "value", "of " << name);
        VF_CHECK(raises([&] { t.getValue<int>(name); }), "unrelated", name << " has a value");
        VF_CHECK(raises([&] { t.getValue<const A&>(name); }), "unrelated", name << " has a value");
        break;
    case Int: back<int, long>(t, name, p, theInt(p)); break;
    case Long: back<long, int>(t, name, p, theLong(p)); break;
    case Bool: back<bool, int>(t, name, p, p.seed & 1); break;
    case Double: back<double, int>(t, name, p, theDouble(p)); break;
    case Text: back<std::string, std::vector<int> >(t, name, p, theText(p)); break;
    case Obj: back<A, B>(t, name, p, A(p.seed)); break;
    case Child: {
        back<C, int>(t, name, p, C(p.seed));
        VF_EQ(t.getValue<const A&>(name).v, int(p.seed), "value", "as its parent");
        VF_EQ(t.getValue<B>(name).w, int(p.seed) * 2, "value", "as its parent");
        break;
    }
    case Vec: back<std::vector<int>, std::vector<long> >(t, name, p, theVec(p)); break;
    case Map: back<std::map<std::string, int>, std::vector<int> >(t, name, p, theMap(p)); break;
    case Shared: back<std::shared_ptr<A>, A*>(t, name, p, theShared(p)); break;
    case TypePtr: back<const Type*, A*>(t, name, p, theType(p)); break;
    case Raw: back<A*, B*>(t, name, p, theRaw(p)); break;
    case Lit:
        back<const char*, A*>(t, name, p, theLit(p));
        VF_EQ(std::string(t.getValue<const char*>(name)), std::string(theLit(p)), "value", "text of " + name);
        break;
    default: {
        Value v = t.getValue<Value>(name);
        VF_EQ(v.get<int>(), theInt(p), "value", "opaque value");
        VF_CHECK(v.isConst(), "value", "the constness of a value was lost");
        VF_CHECK(raises([&] { t.getValue<int&>(name); }), "value", "mutable reference to a const value");
        break;
    }
    }
}

// ------------------------------------------------------------------ entities

struct Entity
{
    std::string name;
    std::function<Traits&()> get;           // looked up again every time.
    std::function<const Traits&()> cget;
    std::map<std::string, Put> traits;
};

void verify(Entity& e, Rng& r)
{
    const Traits& t = r.chance(50) ? e.cget() : e.get();
    auto listed = t.traits();
    std::sort(listed.begin(), listed.end());
    std::vector<std::string> want;
    for (auto& x : e.traits) want.push_back(x.first);
    VF_EQ(vf::join(listed), vf::join(want), "listing", "traits of " + e.name);
    for (auto& x : e.traits) check(t, x.first, x.second);
    std::string msg;
    static const char* near[] = { "", "no", "a b", "alphaa", "alph" };
    for (const char* n : near) {
        if (e.traits.count(n)) continue;
        VF_CHECK(!t.is(n), "absent", e.name << " is <" << n << ">");
        VF_CHECK(raises([&] { t.getValue<Value>(n); }, &msg), "absent", "value of a missing trait");
        VF_CHECK(msg.find("<" + std::string(n) + ">") != std::string::npos, "message", msg);
        VF_CHECK(raises([&] { t.getValue<int>(n); }), "absent", "value of a missing trait");
    }
    event("entities verified");
}

void history(Rng& r)
{
    static int count = 0;
    std::string id = VF_STR("c14hist::T" << count++);
    Type* types[3];
    std::vector<Entity> es;
    for (int i = 0; i < 3; ++i) {
        std::string tid = id + "_" + std::to_string(i);
        Type* made = nullptr;
        Registry::add(tid, [&] (Type* t) { made = t; });
        reflect::type(tid);
        types[i] = made;
        if (i == 1) made->parent(types[0]);
        auto addFn = [=] (const std::string& n) { made->addFunction(n, [] (int x) { return x; }); };
        es.push_back(Entity{ "type " + tid, [=] () -> Traits& { return *made; }, [=] () -> const Traits& { return *reflect::type(tid); } });
        for (const char* f : { "x", "y" }) {
            if (i == 2 && *f == 'y') continue;
            made->addField<int>(f, *f - 'x');
            es.push_back(Entity{ "field " + tid + "." + f, [=] () -> Traits& { return made->field(f); }, [=] () -> const Traits& { return reflect::type(tid)->field(f); } });
        }
        for (const char* f : { "f", "k" }) {
            addFn(f);
            es.push_back(Entity{ "function " + tid + "." + f, [=] () -> Traits& { return made->function(f); }, [=] () -> const Traits& { return reflect::type(tid)->function(f); } });
        }
    }
    // What the child doesn't redefine is its parent's.
    types[0]->addField<int>("inherited", 8);
    types[0]->addFunction("inheritedFn", [] { return 1; });
    {
        Type* t0 = types[0]; Type* t1 = types[1];
        es.push_back(Entity{ "inherited field", [=] () -> Traits& { return t0->field("inherited"); }, [=] () -> const Traits& { return static_cast<const Type*>(t1)->field("inherited"); } });
        es.push_back(Entity{ "inherited function", [=] () -> Traits& { return t0->function("inheritedFn"); }, [=] () -> const Traits& { return static_cast<const Type*>(t1)->function("inheritedFn"); } });
    }
    std::string sc = VF_STR("c14scope" << count);
    for (const char* n : { "", "::in", "::in::deep" }) {
        std::string full = sc + n;
        Registry::globalScope()->scope(full)->addFunction("f", [] { return 2; });
        es.push_back(Entity{ "scope " + full, [=] () -> Traits& { return *Registry::globalScope()->scope(full); }, [=] () -> const Traits& { return *reflect::scope(full); } });
        es.push_back(Entity{ "function " + full + "::f", [=] () -> Traits& { return Registry::globalScope()->function(full + "::f"); },
            [=] () -> const Traits& { return static_cast<const Scope*>(reflect::scope(full))->function("f"); } });
    }
    Traits bare;
    es.push_back(Entity{ "bare traits", [&] () -> Traits& { return bare; }, [&] () -> const Traits& { return bare; } });
    reflect::Overloads alone;
    es.push_back(Entity{ "overloads", [&] () -> Traits& { return alone; }, [&] () -> const Traits& { return alone; } });

    static const char* names[] = { "alpha", "beta", "gamma", "json", "x", "f", "with space", "", "a::b", "sizeof", "pointer?", "z<y>" };
    uint64_t path = 0;
    int grown = 0;
    for (int n = r.range(5, 40); n; --n) {
        Entity& e = r.pick(es);
        std::string name = names[r.below(12)];
        if (r.chance(10)) name += std::string(r.below(300), 'n');
        Put p{ Kind(r.below(KindCount)), r.range(0, 1000), nullptr };
        path = mix(path, hash(e.name.substr(0, 5) + name, p.kind));
        describe(VF_STR("trait <" << name.substr(0, 40) << "> of kind " << p.kind << " on " << e.name));
        bool has = e.traits.count(name);
        std::string msg;
        bool raised = raises([&] { putAny(e.get(), name, p, r); }, &msg);
        VF_EQ(raised, has, "duplicate", "refused");
        if (raised) { VF_CHECK(msg.find(name) != std::string::npos, "message", msg); event("duplicates refused"); }
        else { e.traits[name] = p; event("traits put"); }
        verify(e, r);
        if (r.chance(30)) { // everything grows around them.
            ++grown;
            std::string f = "g" + std::to_string(grown);
            Type* t = types[r.below(3)];
            t->addFunction(f, [] { return 1; });
            t->addField<int>("o" + f, grown * 4);
            raises([&] { t->function("f").add(reflect::Function("f", std::function<int()>([] { return 1; }))); });
        }
        if (r.chance(20)) raises([&] { alone.add(reflect::Function("a", std::function<int(int)>([] (int) { return 1; }))); });
        verify(r.pick(es), r);
    }
    for (auto& e : es) verify(e, r);
    if (r.chance(30)) {
        std::string text = types[0]->print();
        for (auto& x : es[0].traits) VF_CHECK(text.find(x.first) != std::string::npos, "print", x.first << " isn't printed");
    }
    event("histories");
    distinct(path);
}

// ------------------------------------------------------------------ static traits

template<typename T> void number(bool integer)
{
    typedef std::numeric_limits<T> L;
    const Type* t = reflect::type<T>();
    describe("traits of " + t->id());
    const bool b = std::is_same<T, bool>::value;
    VF_EQ(t->is("primitive"), true, "builtin", "primitive");
    VF_EQ(t->is("bool"), b, "builtin", "bool");
    VF_EQ(t->is("integer"), integer, "builtin", "integer");
    VF_EQ(t->is("float"), !integer && !b, "builtin", "float");
    VF_EQ(t->is("signed"), integer && L::is_signed, "builtin", "signed");
    VF_EQ(t->is("unsigned"), integer && !L::is_signed, "builtin", "unsigned");
    for (const char* n : { "list", "map", "string", "smartPtr", "pointer", "void" }) VF_CHECK(!t->is(n), "builtin", "is " << n);
    VF_EQ(t->getValue<T>("min"), L::min(), "builtin", "min");
    VF_EQ(t->getValue<T>("max"), L::max(), "builtin", "max");
    VF_EQ(t->getValue<size_t>("sizeof"), sizeof(T), "builtin", "sizeof");
    VF_EQ(t->traits().size(), size_t(b ? 5 : integer ? 6 : 5), "builtin", "number of traits");
    event("numbers");
}
template<typename T> void kind(const char* name, size_t total, std::initializer_list<const char*> also = {})
{
    const Type* t = reflect::type<T>();
    describe("traits of " + t->id());
    for (const char* n : { "primitive", "bool", "integer", "float", "signed", "unsigned", "list", "map", "string", "smartPtr", "pointer", "void" }) {
        bool want = name && !std::strcmp(n, name);
        for (const char* a : also) if (!std::strcmp(n, a)) want = true;
        VF_EQ(t->is(n), want, "builtin", VF_STR(t->id() << " is " << n));
    }
    VF_EQ(t->getValue<size_t>("sizeof"), sizeof(T), "builtin", "sizeof");
    VF_EQ(t->traits().size(), total, "builtin", "number of traits");
    event("kinds");
}

template<typename C> std::string list(C c) { std::sort(c.begin(), c.end()); return vf::join(c); }

void statics(Rng& r)
{
    number<bool>(false);
    number<char>(true); number<signed char>(true); number<unsigned char>(true);
    number<short>(true); number<unsigned short>(true); number<int>(true); number<unsigned>(true);
    number<long>(true); number<unsigned long>(true); number<long long>(true); number<unsigned long long>(true);
    number<float>(false); number<double>(false); number<long double>(false);
    VF_EQ(list(reflect::type<void>()->traits()), list(std::vector<std::string>{ "primitive", "void" }), "builtin", "void");

    kind<std::string>("string", 2);
    kind<std::vector<int> >("list", 3); kind<std::vector<std::string> >("list", 3);
    kind<std::map<std::string, int> >("map", 4); kind<std::unordered_map<int, A> >("map", 4);
    kind<std::shared_ptr<A> >("smartPtr", 3, { "pointer" }); kind<std::unique_ptr<A> >("smartPtr", 3, { "pointer" });
    kind<A*>("primitive", 3, { "pointer" }); kind<int*>("primitive", 3, { "pointer" });
#define X(N) kind<c14::Sized##N>(nullptr, 1);
    SIZES(X)
#undef X
    kind<c14::Aligned>(nullptr, 1);
    kind<A>(nullptr, 1); kind<B>(nullptr, 1); kind<NC>(nullptr, 1); kind<NM>(nullptr, 1);

    describe("static traits");
    const Type* s = reflect::type<c14::S>(); const Type* k = reflect::type<c14::K>();
    VF_EQ(list(s->traits()), list(std::vector<std::string>{ "sizeof", "marked", "answer", "label", "names" }), "static", "of the type");
    VF_EQ(list(k->traits()), list(std::vector<std::string>{ "sizeof", "kid" }), "static", "of its child");
    VF_EQ(s->getValue<int>("answer"), 42, "static", "value");
    VF_EQ(std::string(s->getValue<const char*>("label")), std::string("a literal"), "static", "literal");
    VF_EQ(s->getValue<std::vector<std::string> >("names").size(), 2u, "static", "value");
    for (const Type* t : { s, k }) {
        VF_EQ(list(t->field("f").traits()), list(std::vector<std::string>{ "hidden", "unit" }), "static", "of a field");
        VF_EQ(t->field("f").getValue<std::string>("unit"), std::string("mm"), "static", "value");
        VF_EQ(t->field("g").traits().size(), 0u, "static", "of another field");
        VF_EQ(t->function("n").traits().size(), 0u, "static", "of another function");
    }
    VF_EQ(list(s->function("m").traits()), list(std::vector<std::string>{ "pure", "cost" }), "static", "of a function");
    VF_EQ(s->function("m").getValue<double>("cost"), 1.5, "static", "value");
    VF_EQ(list(k->function("m").traits()), std::string(list(std::vector<std::string>{ "other" })), "static", "of the child's function");
    VF_EQ(list(reflect::scope("c14")->traits()), list(std::vector<std::string>{ "space", "version" }), "static", "of a scope");
    VF_EQ(reflect::scope("c14")->getValue<std::string>("version"), std::string("1.2"), "static", "value");
    VF_EQ(reflect::scope("c14")->function("glob").traits().size(), 0u, "static", "of a global function");
    c14::S obj; Value v(obj);
    VF_CHECK(v.is("marked") && !v.is("kid"), "static", "of a value");
    distinct("statics");
}

void run(uint64_t idx, Rng& r)
{
    if (idx % 200 == 0) statics(r);
    else history(r);
}

} // namespace

const vf::Harness harness = { "c14", run, nullptr, nullptr };
