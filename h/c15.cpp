// C15: a catalogue of misuses, with names of any length, between snapshots of everything involved.
#include "types.h"

using namespace vf;
using namespace vt;
using reflect::Scope;
using reflect::Type;
using reflect::Registry;
using reflect::Value;
using reflect::Field;
using reflect::Function;
using reflect::Overloads;

namespace c15 {
struct Amb { int v = 0; };
// No way to copy, move or make one.
struct Stuck { Stuck(const Stuck&) = delete; Stuck& operator=(const Stuck&) = delete; Stuck(int v) : v(v) {} int v; };
// Can be moved, not assigned.
struct Fixed { const int v = 3; Fixed() {} Fixed(Fixed&&) {} Fixed(const Fixed&) = delete; };
}
reflectType(c15::Amb)
{
    reflectPlumbing();
    reflectField(v);
    reflectCustom(two) (T_&, A) { called("two A"); return 1; };
    reflectCustom(two) (T_&, B) { called("two B"); return 2; };
    reflectCustom(mixed) (T_&, int, const std::string&) { called("mixed"); return 3; };
    reflectCustom(refs) (T_&, A&, int&) { called("refs"); return 3; };
    reflectCustom(rv) (T_&, A&&) { called("rv"); return 3; };
    reflectCustom(never) (T_&, Cv, A, std::string) { called("never"); return 3; };
    reflectCustom(none) (T_&) { called("none"); };
}
reflectType(c15::Stuck) { reflectField(v); }
reflectType(c15::Fixed) { reflectPlumbing(); }

namespace {

// ------------------------------------------------------------------ names

std::string anyName(Rng& r)
{
    size_t n = r.chance(50) ? r.range(8, 30) : r.chance(60) ? r.range(900, 1100) : r.range(8, 5000);
    static const char chars[] = "abcdefghijklmnopqrstuvwxyz_ %s%n%d.-*&()[]{}'\"\\/\t\x80\xff";
    std::string s;
    if (r.chance(40)) { s.assign(n, 'a' + r.below(26)); s += "end"; return s; }
    while (s.size() < n) s += chars[r.below(sizeof(chars) - 1)];
    return s;
}

// ------------------------------------------------------------------ everything that may be touched

struct World
{
    A a; B b; U u; Cv cv; NC nc; NM nm; c15::Amb amb; c15::Stuck stuck; c15::Fixed fixed;
    std::vector<int> vec; std::map<std::string, int> map; std::shared_ptr<A> sp; std::unique_ptr<A> up; std::string text; int num; double dbl;
    Value va, vca, vb, vowned, vvoid, vnc, vtext;
    Type* rt[2];    // described at run time.
    std::string rtId[2];
    std::string scopeName;
    Scope* scope;
    Overloads overloads;

    explicit World(Rng& r) : a(r.below(100)), b(r.below(100)), u(3), cv(4), nc(5), nm(6), stuck(8), sp(new A(7)), up(new A(8)), text("some text"), num(9), dbl(1.5)
    {
        static int count = 0;
        vec = { 1, 2, 3 };
        map = { { "k", 1 }, { "l", 2 } };
        va = Value(a); vca = Value(static_cast<const A&>(a)); vb = Value(b); vowned = Value(A(11)); vnc = Value(nc); vtext = Value(text);
        std::string base = VF_STR("c15w" << count++);
        for (int i = 0; i < 2; ++i) {
            rtId[i] = base + "::" + (r.chance(50) ? "T" : "T" + std::string(r.range(1000, 3000), 'x')) + std::to_string(i);
            Registry::add(rtId[i], [&] (Type* t) { rt[i] = t; });
            reflect::type(rtId[i]);
            rt[i]->addField<int>("f", 0);
            rt[i]->addFunction("g", [] (int x) { called("g"); return x; });
            rt[i]->addTrait("t", 5);
        }
        rt[1]->parent(rt[0]);
        rt[1]->setPointer("*", reflect::type<int>());
        scopeName = base;
        scope = Registry::globalScope()->scope(base);
        scope->addFunction("sf", [] (int x) { called("sf"); return x; });
        scope->scope("inner")->addTrait("st", std::string("v"));
        Registry::alias(rtId[0], base + "alias");
        overloads.add(Function("o", [] (A&) { called("o"); return 1; }));
    }

    static std::string describe(const Type* t)
    {
        std::ostringstream s;
        auto fns = t->functions(); auto fields = t->fields(); auto traits = t->traits();
        std::sort(traits.begin(), traits.end());
        s << t->id() << " parent " << (t->parent() ? t->parent()->id() : "-") << " pointer " << (t->isPointer() ? t->pointer() + t->pointee()->id() : "-") << "\n";
        for (auto& f : fns) s << "  " << f << " " << t->function(f).print() << "\n";
        for (auto& f : fields) s << "  " << t->field(f).print() << " " << vf::join(t->field(f).traits()) << "\n";
        s << vf::join(traits) << "\n";
        return s.str();
    }
    static std::string describe(const Scope* sc)
    {
        std::ostringstream s;
        auto types = sc->types(true); auto fns = sc->functions(true); auto scopes = sc->scopes(); auto traits = sc->traits();
        std::sort(types.begin(), types.end()); std::sort(fns.begin(), fns.end()); std::sort(scopes.begin(), scopes.end()); std::sort(traits.begin(), traits.end());
        s << "scope " << sc->id() << vf::join(types) << vf::join(fns) << vf::join(scopes) << vf::join(traits) << "\n";
        for (auto& x : scopes) s << describe(sc->scope(x));
        return s.str();
    }
    static std::string describe(const Value& v)
    {
        return VF_STR(v.value() << " " << v.type()->id() << " " << int(v.refType()) << v.isConst() << v.isStored() << "\n");
    }

    // Everything: descriptions, values and objects.
    std::string snapshot(bool full) const
    {
        std::ostringstream s;
        const Type* types[] = { reflect::type<A>(), reflect::type<B>(), reflect::type<U>(), reflect::type<Cv>(), reflect::type<NC>(), reflect::type<NM>(),
            reflect::type<c15::Amb>(), reflect::type<c15::Stuck>(), reflect::type<c15::Fixed>(), reflect::type<std::vector<int> >(), reflect::type<std::shared_ptr<A> >() };
        if (full) for (auto* t : types) s << describe(t);
        for (auto* t : rt) s << describe(t);
        s << describe(scope);
        s << reflect::type(scopeName + "alias") << reflect::type(rtId[0]) << reflect::type(rtId[1]) << "\n";
        s << overloads.print() << overloads.size() << "\n";
        for (const Value* v : { &va, &vca, &vb, &vowned, &vvoid, &vnc, &vtext }) s << describe(*v);
        const Track* tracks[] = { &a.t, &b.t, &u.t, &cv.t, &nc.t, &nm.t, &sp->t, &up->t, &vowned.get<A>().t };
        for (const Track* t : tracks) { t->check(); s << t->moved(); }
        s << a.v << a.s << b.v << b.w << b.s << u.v << cv.v << nc.v << nm.v << amb.v << stuck.v << fixed.v << num << dbl << text << "\n";
        for (int x : vec) s << x << ",";
        for (auto& x : map) s << x.first << x.second << ",";
        s << sp.use_count() << sp->v << up->v << vowned.get<A>().v << vowned.get<A>().s << "\n";
        return s.str();
    }

    // Still usable.
    void use()
    {
        int before = a.v;
        va.call<void>("set", before + 1);
        VF_EQ(va.call<int>("get"), before + 1, "usable", "method");
        VF_EQ(va.field<int>("v"), before + 1, "usable", "field");
        a.v = before;
        VF_EQ(rt[1]->function("g").call<int>(5), 5, "usable", "function");
        VF_EQ(scope->call<int>("sf", 6), 6, "usable", "scope function");
        VF_EQ(overloads.call<int>(a), 1, "usable", "overloads");
        VF_EQ(vowned.copy().get<A>().v, 11, "usable", "copy");
        VF_EQ(Value(amb).call<int>("mixed", 1, text), 3, "usable", "call");
        VF_EQ(rt[0]->getValue<int>("t"), 5, "usable", "trait");
        VF_EQ(Value(vec).call<int>("at", size_t(1)), 2, "usable", "element");
        calls().clear();
    }
};

std::string id(const Type* t) { return t->id(); }

// ------------------------------------------------------------------ misuses

struct Misuse
{
    const char* name;
    std::function<void(World&, const std::string& n)> run;
    std::function<std::vector<std::string>(World&, const std::string& n)> named; // what the message must name.
};

#define MISUSE(name, ...) Misuse{ name, [] (World& w, const std::string& n) { __VA_ARGS__; },
#define NAMES(...) [] (World& w, const std::string& n) -> std::vector<std::string> { return { __VA_ARGS__ }; } }

const std::vector<Misuse>& catalogue()
{
    static const std::vector<Misuse> all = {
    // unknown names
    MISUSE("unknown type", reflect::type(n)) NAMES(n),
    MISUSE("empty type name", reflect::type("")) NAMES(),
    MISUSE("unknown function", reflect::type<A>()->function(n)) NAMES(n, "vt::A"),
    MISUSE("unknown immediate function", w.rt[1]->function(n)) NAMES(n, w.rtId[1]),
    MISUSE("inherited function changed", const_cast<Type*>(reflect::type<B>())->function("get")) NAMES("get", "vt::B"),
    MISUSE("unknown field", reflect::type<A>()->field(n)) NAMES(n, "vt::A"),
    MISUSE("unknown immediate field", w.rt[1]->field(n)) NAMES(n, w.rtId[1]),
    MISUSE("inherited field changed", const_cast<Type*>(reflect::type<B>())->field("v")) NAMES("v", "vt::B"),
    MISUSE("unknown method", w.va.call<int>(n)) NAMES(n, "vt::A"),
    MISUSE("unknown method with arguments", w.va.call<Value>(n, 1, w.text)) NAMES(n, "vt::A"),
    MISUSE("unknown member", w.va.field<int>(n)) NAMES(n, "vt::A"),
    MISUSE("unknown member", w.vca.field<Value>(n)) NAMES(n, "vt::A"),
    MISUSE("unknown call", reflect::type<A>()->call<int>(n, w.a)) NAMES(n, "vt::A"),
    MISUSE("unknown scope", reflect::scope(w.scopeName + "." + n)) NAMES(),
    MISUSE("unknown nested scope", static_cast<const Scope*>(w.scope)->scope("inner." + n)) NAMES(),
    MISUSE("unknown scope function", w.scope->call<int>("f" + std::string(n.size(), 'q'), 1)) NAMES("f" + std::string(n.size(), 'q'), w.scopeName),
    MISUSE("unknown nested scope function", w.scope->function("inner::" + std::string(n.size(), 'q'))) NAMES(std::string(n.size(), 'q'), "inner"),
    MISUSE("unknown scope type", w.scope->type("T" + std::string(n.size(), 'q'))) NAMES(w.scopeName + "::T" + std::string(n.size(), 'q')),
    MISUSE("unknown scope in a scope", static_cast<const Scope*>(w.scope)->scope("S" + std::string(n.size(), 'q'))) NAMES("S" + std::string(n.size(), 'q')),
    MISUSE("through a type", w.scope->type(w.rtId[0].substr(w.scopeName.size() + 2) + "::inner")) NAMES(),
    MISUSE("through a type", w.scope->addType(w.rtId[0].substr(w.scopeName.size() + 2) + "::inner")) NAMES(),
    MISUSE("type through a function", w.scope->addType("sf::" + std::string(n.size(), 'q'))) NAMES("sf::" + std::string(n.size(), 'q'), w.scopeName),
    MISUSE("type through a type", Registry::add(w.rtId[0] + "::inner", [] (Type*) {})) NAMES(),
    MISUSE("malformed name", w.scope->type("x<" + std::string(n.size(), 'q'))) NAMES("x<" + std::string(n.size(), 'q')),
    MISUSE("malformed name", w.scope->hasFunction("a:" + std::string(n.size(), 'q'))) NAMES("a:" + std::string(n.size(), 'q')),
    MISUSE("malformed name", w.scope->addFunction("x::y<" + std::string(n.size(), 'q'), [] { return 1; })) NAMES(std::string(n.size(), 'q')),
    MISUSE("malformed name", w.scope->addType("x::y<" + std::string(n.size(), 'q'))) NAMES(std::string(n.size(), 'q')),
    MISUSE("malformed name", Registry::add(w.scopeName + "::x::y:" + std::string(n.size(), 'q'), [] (Type*) {})) NAMES(std::string(n.size(), 'q')),
    // registration
    MISUSE("nameless type", Registry::add("", [] (Type*) {})) NAMES(),
    MISUSE("no loader", Registry::add(n, std::function<void(Type*)>())) NAMES(n),
    MISUSE("duplicate alias", Registry::alias(n, w.scopeName + "alias")) NAMES(n, w.scopeName + "alias", w.rtId[0]),
    MISUSE("empty alias", Registry::alias(n, "")) NAMES(n),
    MISUSE("alias of nothing", Registry::alias("", n)) NAMES(n),
    // duplicates
    MISUSE("duplicate function", w.rt[0]->addFunction("g", [] (int) { return 1; })) NAMES("g", "int(int)"),
    MISUSE("duplicate function", w.rt[0]->function("g").add(Function(n, [] (int x) { return x + 1; }))) NAMES(n, "int(int)", "g"),
    MISUSE("duplicate scope function", w.scope->addFunction("sf", [] (int) { return 1; })) NAMES("sf"),
    MISUSE("duplicate field", w.rt[0]->addField<double>("f", 8)) NAMES("int f", w.rtId[0]),
    MISUSE("function named as a field", w.rt[0]->addFunction("f", [] { return 1; })) NAMES("int f", w.rtId[0]),
    MISUSE("field named as a function", w.rt[0]->addField<int>("g", 4)) NAMES("int g", w.rtId[0]),
    MISUSE("field that's a reference", w.rt[0]->addField<int&>(n, 4)) NAMES(n),
    MISUSE("pointer twice", w.rt[1]->setPointer("&", reflect::type<A>())) NAMES(w.rtId[1]),
    MISUSE("pointer of none", w.rt[0]->pointer()) NAMES(w.rtId[0]),
    MISUSE("pointee of none", w.rt[0]->pointee()) NAMES(w.rtId[0]),
    MISUSE("duplicate trait", w.rt[0]->addTrait("t", 6)) NAMES("t"),
    MISUSE("duplicate bare trait", w.rt[0]->addTrait("t")) NAMES("t"),
    MISUSE("duplicate scope trait", w.scope->scope("inner")->addTrait("st")) NAMES("st"),
    MISUSE("missing trait", w.rt[0]->getValue<int>(n)) NAMES(n),
    MISUSE("trait as another type", w.rt[0]->getValue<std::string>("t")) NAMES("int", "std::string"),
    MISUSE("trait as another type", reflect::scope(w.scopeName + "::inner")->getValue<A&>("st")) NAMES("vt::A", "std::string"),
    // arguments
    MISUSE("too few arguments", w.va.call<void>("set")) NAMES("set"),
    MISUSE("too many arguments", w.va.call<int>("get", 1)) NAMES("get"),
    MISUSE("too many arguments", w.va.call<int>("add", 1, 2, 3)) NAMES("add"),
    MISUSE("wrong argument", w.va.call<void>("set", w.text)) NAMES("set", "std::string"),
    MISUSE("wrong opaque argument", w.va.call<void>("set", w.vtext)) NAMES("set", "std::string"),
    MISUSE("wrong second argument", Value(w.amb).call<int>("mixed", 1, 2)) NAMES("mixed", "int"),
    MISUSE("conversions then a wrong argument", Value(w.amb).call<int>("never", w.cv, w.cv, w.u)) NAMES("never", "vt::Cv", "vt::U"),
    MISUSE("copies then a wrong argument", Value(w.amb).call<int>("never", w.cv, w.a, Value(w.vec))) NAMES("never", "vt::A", "std::vector<int>"),
    MISUSE("a void argument", w.va.call<void>("set", w.vvoid)) NAMES("set", "void"),
    MISUSE("const for mutable", w.vca.call<void>("set", 1)) NAMES("set", "vt::A"),
    MISUSE("const for mutable", Value(w.amb).call<int>("refs", w.vca, w.num)) NAMES("refs", "vt::A"),
    MISUSE("rvalue for a reference", Value(w.amb).call<int>("refs", w.a, 5)) NAMES("refs", "vt::A", "int"),
    MISUSE("lvalue for an rvalue", Value(w.amb).call<int>("rv", w.a)) NAMES("rv", "vt::A"),
    MISUSE("parent for a child", Value(w.b).call<int>("getw", 3)) NAMES("getw"),
    MISUSE("call on the parent", reflect::type<B>()->call<int>("getw", w.a)) NAMES("getw", "vt::A"),
    MISUSE("wrong this", reflect::type<A>()->call<int>("get", w.u)) NAMES("get", "vt::U"),
    MISUSE("ambiguous", Value(w.amb).call<int>("two", w.b)) NAMES("two", "vt::B"),
    MISUSE("wrong overload", w.overloads.call<int>(w.u)) NAMES("o", "vt::U"),
    MISUSE("no overload", w.overloads.call<int>()) NAMES("o"),
    MISUSE("no such overload", w.overloads.get<std::string(int)>()) NAMES("o", "std::string(int)"),
    MISUSE("wrong function", w.overloads[0].call<int>(w.u)) NAMES("vt::U", "vt::A"),
    MISUSE("empty overloads", Overloads().call<void>(1)) NAMES("int"),
    MISUSE("wrong constructor", reflect::type<A>()->construct(w.vec)) NAMES("vt::A", "std::vector<int>"),
    MISUSE("too many for a constructor", reflect::type<A>()->construct(1, 2, 3, 4)) NAMES("vt::A"),
    MISUSE("no constructor", reflect::type<c15::Stuck>()->construct(1)) NAMES("c15::Stuck"),
    MISUSE("no allocator", reflect::type<c15::Stuck>()->alloc()) NAMES("new", "c15::Stuck"),
    // results
    MISUSE("wrong result", w.va.call<std::string>("get")) NAMES("get", "std::string"),
    MISUSE("wrong result", w.va.call<std::vector<int> >("get")) NAMES("get", "std::vector<int>"),
    MISUSE("reference to a temporary", w.va.call<int&>("get")) NAMES("get", "int"),
    MISUSE("mutable reference to const", w.va.call<int&>("cref")) NAMES("cref", "int"),
    MISUSE("result of nothing", Value(w.amb).call<int>("none")) NAMES("none", "int"),
    MISUSE("child from the parent", w.va.call<B&>("self")) NAMES("self", "vt::B"),
    // casts
    MISUSE("unrelated cast", reflect::cast<U>(w.va)) NAMES("vt::A", "vt::U"),
    MISUSE("unrelated reference", reflect::cast<U&>(w.va)) NAMES("vt::A", "vt::U"),
    MISUSE("downcast", reflect::cast<B&>(w.va)) NAMES("vt::A", "vt::B"),
    MISUSE("const cast", reflect::cast<A&>(w.vca)) NAMES("vt::A"),
    MISUSE("cast of nothing", reflect::cast<A>(w.vvoid)) NAMES("void", "vt::A"),
    MISUSE("cast of nothing", reflect::cast<const A&>(w.vvoid)) NAMES("void", "vt::A"),
    MISUSE("cast of long", reflect::cast<std::map<std::string, int> >(w.vtext)) NAMES("std::string", "std::map<std::string,int>"),
    MISUSE("unrelated rvalue", reflect::cast<U&&>(w.va)) NAMES("vt::A", "vt::U"),
    MISUSE("wrong access", w.va.get<U>()) NAMES("vt::A", "vt::U"),
    MISUSE("wrong access", w.va.as<int>()) NAMES("vt::A", "int"),
    MISUSE("access of nothing", w.vvoid.get<int>()) NAMES("void", "int"),
    MISUSE("member of another type", w.va.field<std::string>("v")) NAMES("std::string", "int"),
    MISUSE("mutable member of const", w.vca.field<int&>("v")) NAMES("int"),
    MISUSE("no converter", reflect::type<A>()->converter<U>()) NAMES("U"),
    MISUSE("no conversion", w.va.convert<Value>(reflect::type<U>())) NAMES("U"),
    // copies and moves
    MISUSE("copy of the uncopiable", w.vnc.copy()) NAMES("vt::NC"),
    MISUSE("copy of the uncopiable", reflect::type<NC>()->construct(w.nc)) NAMES("vt::NC"),
    MISUSE("copy of the stuck", Value(w.stuck).copy()) NAMES("c15::Stuck"),
    MISUSE("move of the stuck", Value(w.stuck).move()) NAMES("c15::Stuck"),
    MISUSE("move of the unmovable", Value(w.nm).move()) NAMES("vt::NM"),
    MISUSE("storing the stuck", Value(c15::Stuck(4))) NAMES("c15::Stuck"),
    MISUSE("copy of unique", Value(w.up).copy()) NAMES("std::unique_ptr<vt::A>"),
    MISUSE("cast of unique", reflect::cast<std::unique_ptr<A> >(Value(w.up))) NAMES("std::unique_ptr<vt::A>"),
    MISUSE("assignment of unique", Value(w.up).assign(w.up)) NAMES("operator=", "std::unique_ptr<vt::A>"),
    MISUSE("assignment to const", w.vca.assign(w.a)) NAMES("operator=", "vt::A"),
    MISUSE("assignment of another", w.va.assign(w.u)) NAMES("operator=", "vt::U"),
    MISUSE("assignment to the fixed", Value(w.fixed).assign(c15::Fixed())) NAMES("operator=", "c15::Fixed"),
    MISUSE("copy of nothing", w.vvoid.copy()) NAMES("void"),
    // operators
    MISUSE("no operator", w.va + 1) NAMES("operator+", "vt::A"),
    MISUSE("no operator", w.va += w.va) NAMES("operator+=", "vt::A"),
    MISUSE("no operator", ++w.va) NAMES("operator++", "vt::A"),
    MISUSE("no operator", w.va++) NAMES("operator++", "vt::A"),
    MISUSE("no comparison", (void) (w.vb < w.vb)) NAMES("operator<"),
    MISUSE("no operator", w.va(1, 2)) NAMES("operator()", "vt::A"),
    MISUSE("no operator", w.va[1]) NAMES("operator[]", "vt::A"),
    MISUSE("no operator", *w.va) NAMES("operator*", "vt::A"),
    MISUSE("no operator", !w.va) NAMES("operator bool()", "vt::A"),
    MISUSE("operator of nothing", w.vvoid + 1) NAMES("operator+", "void"),
    MISUSE("wrong operand", Value(w.num) + w.text) NAMES("operator+", "std::string"),
    MISUSE("wrong key", Value(w.map)[5]) NAMES("operator[]", "int"),
    // containers
    MISUSE("out of range", Value(w.vec).call<int>("at", size_t(3))) NAMES("3"),
    MISUSE("out of range", Value(w.vec).call<int>("at", size_t(-1))) NAMES("18446744073709551615", "3"),
    MISUSE("missing key", Value(w.map).call<int>("at", n)) NAMES(),
    MISUSE("wrong element", Value(w.vec).call<void>("push_back", w.a)) NAMES("push_back", "vt::A"),
    };
    return all;
}

void run(uint64_t idx, Rng& r)
{
    World w(r);
    const auto& all = catalogue();
    w.use();
    for (int i = 0; i < 12; ++i) {
        // Every misuse in turn, then at random.
        const Misuse& m = i < 4 ? all[(idx * 4 + i) % all.size()] : r.pick(all);
        std::string n = anyName(r);
        describe(VF_STR(m.name << " (" << (&m - &all[0]) << ") with a name of " << n.size()));
        const bool full = i == 0;
        std::string before = w.snapshot(full);
        long live = Track::live();
        Track::Counts counts = Track::counts;
        calls().clear();
        std::string msg;
        bool raised = raises([&] { m.run(w, n); }, &msg);
        VF_CHECK(raised, "unreported", "nothing was reported");
        VF_CHECK(calls().empty(), "user-code", "ran " << vf::join(calls()));
        VF_EQ(Track::live(), live, "leak", "objects alive");
        VF_EQ(Track::counts.copy + Track::counts.copyAssign, counts.copy + counts.copyAssign, "user-code", "copies made");
        std::string after = w.snapshot(full);
        if (before != after) {
            size_t d = 0;
            while (d < before.size() && d < after.size() && before[d] == after[d]) ++d;
            size_t from = d > 60 ? d - 60 : 0;
            fail("changed", VF_STR("something changed: <" << before.substr(from, 160) << "> became <" << after.substr(from, 160) << ">"));
        }
        VF_CHECK(msg.find(".cpp:") != std::string::npos || msg.find(".h:") != std::string::npos || msg.find(".tcc:") != std::string::npos, "message", "no position in <" << msg.substr(0, 200) << ">");
        for (auto& s : m.named(w, n))
            VF_CHECK(msg.find(s) != std::string::npos, "message", "<" << s.substr(0, 100) << "> (" << s.size() << ") isn't named in <" << msg.substr(0, 300) << "> (" << msg.size() << ")");
        if (msg.size() > 1023) event("long messages");
        event("misuses");
        distinct(VF_STR(m.name << (&m - &all[0]) << n.size() / 64));
        if (r.chance(30)) w.use();
    }
    w.use();
    event("histories");
}

} // namespace

const vf::Harness harness = { "c15", run, nullptr, nullptr };
