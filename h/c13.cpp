// C13: scopes built at random at run time against a flat set of qualified names.
#include "types.h"

using namespace vf;
using reflect::Scope;
using reflect::Type;
using reflect::Registry;
using reflect::Value;

// ------------------------------------------------------------------ static descriptions

namespace c13 {
int var = 3; const int cvar = 17; std::string text = "t"; vt::A object(5);
int twice(int x) { return 2 * x; }
int over(int x) { return x + 1; }
std::string over(const std::string& x) { return x + "+"; }
namespace deep { long deepVar = 9; int fn() { return 77; } struct T { int v = 4; }; }
}
reflectType(c13::deep::T) { reflectPlumbing(); reflectField(v); }
reflectScope(c13)
{
    reflectGlobalVar(c13::var);
    reflectGlobalVar(c13::cvar);
    reflectGlobalVar(c13::text);
    reflectGlobalVar(c13::object);
    reflectGlobalFn(c13::twice);
    reflectGlobalFnTyped(c13::over, int(*)(int));
    reflectGlobalFnTyped(c13::over, std::string(*)(const std::string&));
}
reflectScope(c13::deep)
{
    reflectGlobalVar(c13::deep::deepVar);
    reflectGlobalFn(c13::deep::fn);
}

namespace {

typedef std::vector<std::string> Parts;

std::string cat(const Parts& p, size_t from = 0, size_t to = size_t(-1))
{
    std::string s;
    for (size_t i = from; i < std::min(to, p.size()); ++i) s += (i > from ? "::" : "") + p[i];
    return s;
}

// ------------------------------------------------------------------ names

std::string component(Rng& r, int depth = 0)
{
    static const char* names[] = { "a", "b", "c", "ns", "T", "x1", "_y", "longer_name", "operator==", "operator()", "operator[]", "std" };
    std::string s = names[r.below(depth ? 8 : 12)];
    if (depth < 3 && r.chance(20)) {
        s += "<";
        for (int n = r.range(1, 3); n; --n) {
            for (int k = r.range(1, 3); k; --k) s += component(r, depth + 1) + (k > 1 ? "::" : "");
            if (n > 1) s += ",";
        }
        s += ">";
        if (r.chance(10)) s += "*";
    }
    return s;
}

void names(Rng& r)
{
    Parts p;
    for (int n = r.range(1, 6); n; --n) p.push_back(component(r));
    std::string name = cat(p);
    describe(VF_STR("name " << name));
    auto h = Scope::head(name);
    VF_EQ(h.first, p[0], "head", "first part of " + name);
    VF_EQ(h.second, cat(p, 1), "head", "rest of " + name);
    auto t = Scope::tail(name);
    VF_EQ(t.first, p.back(), "tail", "last part of " + name);
    VF_EQ(t.second, cat(p, 0, p.size() - 1), "tail", "rest of " + name);
    if (p.size() > 1) {
        VF_EQ(Scope::join(h.first, h.second), name, "join", "head and rest");
        VF_EQ(Scope::join(t.second, t.first), name, "join", "rest and tail");
    }
    VF_EQ(Scope::join("", name), name, "join", "nothing");
    event("names split");
    distinct(name);

    // One thing wrong.
    std::string bad = name;
    switch (r.below(3)) {
    case 0: bad.insert(r.below(bad.size() + 1), "<"); break;
    case 1: bad.insert(r.below(bad.size() + 1), ">"); break;
    default: bad.insert(r.below(bad.size() + 1), ":"); break;
    }
    describe(VF_STR("malformed name " << bad));
    size_t whole = 0;
    for (int i = 0; i < 2; ++i) {
        std::pair<std::string, std::string> s;
        if (raises([&] { s = i ? Scope::tail(bad) : Scope::head(bad); })) { event("malformed names refused"); continue; }
        bool single = i ? s.first == bad : s.first == bad;
        if (single) {
            // A lone ':' in template arguments isn't looked at.
            VF_CHECK(std::count(bad.begin(), bad.end(), '<') == std::count(bad.begin(), bad.end(), '>'), "malformed", bad << " accepted");
            ++whole;
        }
        // Degenerate empty parts are joined without a separator.
        else if (!s.first.empty() && !s.second.empty())
            VF_EQ(i ? Scope::join(s.second, s.first) : Scope::join(s.first, s.second), bad, "join", "parts of a malformed name");
    }
    (void) whole;
}

// ------------------------------------------------------------------ random scopes

std::map<std::string, int> loads;  // types described.

struct Tree
{
    std::string prefix;                 // qualified name of the root.
    Scope* root;
    std::set<std::string> scopes;       // relative to the root.
    std::set<std::string> types;
    std::map<std::string, std::vector<int> > fns; // argument counts.
    std::map<std::string, int> markers; // what each function returns.
    std::set<std::string> noLoader;
    std::map<std::string, const Type*> seen;
    std::vector<Parts> pool;
};

Parts randomName(Tree& t, Rng& r)
{
    if (!t.pool.empty() && r.chance(65)) {
        Parts p = r.pick(t.pool);
        switch (r.below(5)) {
        case 0: p.back() = component(r); break;
        case 1: p.push_back(component(r)); break;
        case 2: if (p.size() > 1) p.pop_back(); break;
        case 3: p[r.below(p.size())] = component(r); break;
        }
        return p;
    }
    Parts p;
    for (int n = r.range(1, 4); n; --n) p.push_back(component(r));
    return p;
}

void addScopes(Tree& t, const Parts& p, size_t n)
{
    for (size_t i = 1; i <= n; ++i) t.scopes.insert(cat(p, 0, i));
}

// Does the name go through a type?
bool throughType(const Tree& t, const Parts& p, size_t from = 0)
{
    for (size_t i = from + 1; i < p.size(); ++i) if (t.types.count(cat(p, 0, i))) return true;
    return false;
}

// A scope in which p may be named by a suffix: the root or one of those p goes through.
Scope* enclosing(Tree& t, const Parts& p, Rng& r, size_t& from)
{
    std::vector<size_t> can(1, 0);
    for (size_t i = 1; i < p.size(); ++i) if (t.scopes.count(cat(p, 0, i))) can.push_back(i);
    from = r.pick(can);
    return from ? static_cast<const Scope*>(t.root)->scope(cat(p, 0, from)) : t.root;
}

void query(Tree& t, const Parts& p, Rng& r)
{
    std::string full = cat(p);
    size_t from;
    Scope* in = enclosing(t, p, r, from);
    const Scope* cin = in;
    std::string name = cat(p, from);
    if (!from && r.chance(40)) { in = Registry::globalScope(); cin = in; name = t.prefix + "::" + full; }
    describe(VF_STR("query " << name << " in <" << in->id() << ">"));

    const bool isScope = t.scopes.count(full), isFn = t.fns.count(full), isType = t.types.count(full);
    // scopes
    VF_EQ(cin->hasScope(name), isScope, "scope", "hasScope " + name);
    const Scope* s = nullptr;
    VF_EQ(raises([&] { s = cin->scope(name); }), !isScope, "scope", "scope lookup refused " + name);
    if (isScope) {
        VF_EQ(s->id(), t.prefix + "::" + full, "scope", "id");
        VF_EQ(s->name(), p.back(), "scope", "name");
        VF_CHECK(!s->isGlobal() && s->parent(), "scope", "has a parent");
        VF_EQ(s->parent()->id(), p.size() > 1 ? t.prefix + "::" + cat(p, 0, p.size() - 1) : t.prefix, "scope", "parent");
        VF_EQ((const void*) in->scope(name), (const void*) s, "scope", "same scope");
    }
    // functions
    VF_EQ(cin->hasFunction(name), isFn, "function", "hasFunction " + name);
    reflect::Overloads* o = nullptr; const reflect::Overloads* co = nullptr;
    VF_EQ(raises([&] { o = &in->function(name); }), !isFn, "function", "function lookup refused " + name);
    VF_EQ(raises([&] { co = &cin->function(name); }), !isFn, "function", "function lookup refused " + name);
    if (isFn) {
        VF_EQ((const void*) o, (const void*) co, "function", "same function");
        VF_EQ(co->size(), t.fns[full].size(), "function", "overloads");
        for (int n : t.fns[full]) {
            int got = n == 0 ? cin->call<int>(name) : n == 1 ? cin->call<int>(name, 1) : cin->call<int>(name, 1, 2);
            VF_EQ(got, t.markers[full] + n, "function", "result of " + name);
        }
        event("functions called");
    }
    else VF_CHECK(raises([&] { cin->call<int>(name); }), "function", "called a missing function");
    // types
    std::string msg;
    if (throughType(t, p, from)) {
        bool has = false;
        bool raised = raises([&] { has = in->hasType(name); }, &msg);
        VF_CHECK(raised, "inner", "hasType through a type gives " << has);
        VF_CHECK(raises([&] { in->type(name); }), "inner", "type through a type");
        event("through types");
    }
    else {
        int before = loads[t.prefix + "::" + full];
        VF_EQ(in->hasType(name), isType, "type", "hasType " + name);
        VF_EQ(loads[t.prefix + "::" + full], before, "type", "loads by a query");
        const Type* ty = nullptr;
        bool noLoader = t.noLoader.count(full);
        VF_EQ(raises([&] { ty = in->type(name); }), !isType || noLoader, "type", "type lookup refused " + name);
        if (ty) {
            VF_EQ(ty->id(), t.prefix + "::" + full, "type", "id");
            VF_EQ((const void*) reflect::type(t.prefix + "::" + full), (const void*) ty, "type", "same type");
            if (!t.seen.count(full)) t.seen[full] = ty;
            VF_EQ((const void*) t.seen[full], (const void*) ty, "type", "same type as before");
            VF_EQ(loads[ty->id()], 1, "type", "times loaded");
            VF_CHECK(ty->hasFunction("marker"), "type", "described");
            event("types found");
        }
    }
    event(isScope || isFn || isType ? "present queries" : "absent queries");
}

template<typename C> std::string list(const C& c)
{
    std::vector<std::string> v(c.begin(), c.end());
    std::sort(v.begin(), v.end());
    return vf::join(v);
}
template<typename C> std::vector<std::string> under(const C& all, const std::string& prefix, bool deep, bool strip)
{
    std::vector<std::string> out;
    for (auto& n : all) {
        if (!prefix.empty() && n.compare(0, prefix.size() + 2, prefix + "::")) continue;
        std::string rest = prefix.empty() ? n : n.substr(prefix.size() + 2);
        // deeper ones go through a separator outside of template arguments.
        bool inner = false; int nest = 0;
        for (size_t i = 0; i < rest.size(); ++i) { nest += rest[i] == '<' ? 1 : rest[i] == '>' ? -1 : 0; if (!nest && rest[i] == ':') inner = true; }
        if (inner && !deep) continue;
        out.push_back(rest);
    }
    return out;
}

void listings(Tree& t, Rng& r)
{
    std::vector<std::string> scopes(1, "");
    scopes.insert(scopes.end(), t.scopes.begin(), t.scopes.end());
    std::vector<std::string> fns;
    for (auto& f : t.fns) fns.push_back(f.first);
    for (auto& name : scopes) {
        if (name.size() && scopes.size() > 8 && r.chance(50)) continue;
        describe(VF_STR("listing of " << name));
        const Scope* s = name.empty() ? t.root : static_cast<const Scope*>(t.root)->scope(name);
        VF_EQ(list(s->scopes()), list(under(t.scopes, name, false, true)), "listing", "scopes of <" + name + ">");
        VF_EQ(list(s->types()), list(under(t.types, name, false, true)), "listing", "types of <" + name + ">");
        VF_EQ(list(s->types(true)), list(under(t.types, name, true, true)), "listing", "all types of <" + name + ">");
        VF_EQ(list(s->functions()), list(under(fns, name, false, true)), "listing", "functions of <" + name + ">");
        VF_EQ(list(s->functions(true)), list(under(fns, name, true, true)), "listing", "all functions of <" + name + ">");
        event("listings");
    }
    std::string text = t.root->print();
    for (auto& n : t.scopes) VF_CHECK(text.find("scope " + Scope::tail(n).first + "\n") != std::string::npos, "print", n << " isn't printed");
}

void tree(Rng& r, uint64_t idx)
{
    static int count = 0;
    Tree t;
    bool deep = r.chance(30);
    t.prefix = VF_STR("tree" << count++ << (deep ? "::in<a::b>::x" : ""));
    t.root = Registry::globalScope()->scope(t.prefix);
    VF_EQ(t.root->id(), t.prefix, "scope", "id of the root");
    loads.clear();
    uint64_t path = 0;
    for (int n = r.range(5, 25); n; --n) {
        Parts p = randomName(t, r);
        std::string full = cat(p);
        size_t from;
        int op = r.below(10);
        path = mix(path, hash(full, op));
        switch (op) {
        case 0: case 1: case 2: { // a function.
            Scope* in = enclosing(t, p, r, from);
            std::string name = cat(p, from);
            if (!from && r.chance(30)) { in = Registry::globalScope(); name = t.prefix + "::" + full; }
            describe(VF_STR("function " << name << " in <" << in->id() << ">"));
            int args = r.below(3);
            auto& have = t.fns[full];
            if (!t.markers.count(full)) t.markers[full] = r.below(10000) * 10;
            int m = t.markers[full];
            bool dup = std::count(have.begin(), have.end(), args);
            bool raised = raises([&] {
                if (args == 0) in->addFunction(name, [m] { return m; });
                else if (args == 1) in->addFunction(name, [m] (int) { return m + 1; });
                else in->addFunction(name, [m] (int, int) { return m + 2; });
            });
            // names through a type may be refused.
            if (!throughType(t, p) || !raised) VF_EQ(raised, dup, "function", "adding refused");
            if (!raised) { have.push_back(args); addScopes(t, p, p.size() - 1); event("functions added"); }
            if (have.empty()) { t.fns.erase(full); t.markers.erase(full); }
            break;
        }
        case 3: case 4: case 5: { // a type.
            bool conflict = throughType(t, p);
            for (size_t i = 1; i < p.size(); ++i) if (t.fns.count(cat(p, 0, i))) conflict = true;
            Scope* in = enclosing(t, p, r, from);
            std::string name = cat(p, from);
            bool loader = r.chance(80);
            describe(VF_STR("type " << name << " in <" << in->id() << ">" << (loader ? " with its loader" : "")));
            bool already = t.types.count(full);
            bool raised;
            // Only conflicts within the scope it's added from are looked at.
            bool local = false;
            for (size_t i = (loader ? 0 : from) + 1; i < p.size(); ++i) if (t.types.count(cat(p, 0, i)) || t.fns.count(cat(p, 0, i))) local = true;
            if (loader) raised = raises([&] { Registry::add(t.prefix + "::" + full, [] (Type* type) { ++loads[type->id()]; type->addFunction("marker", [] { return 1; }); }); });
            else raised = raises([&] { in->addType(name); });
            VF_EQ(raised, local, "type", "adding refused");
            if (raised) {
                event("conflicts refused");
                if (loader && !already) VF_CHECK(raises([&] { reflect::type(t.prefix + "::" + full); }), "type", "a refused type can be looked up");
                break;
            }
            t.types.insert(full);
            if (loader) t.noLoader.erase(full);
            else if (!already) t.noLoader.insert(full);
            addScopes(t, p, p.size() - 1);
            event("types added");
            break;
        }
        case 6: { // a scope.
            Scope* in = enclosing(t, p, r, from);
            describe(VF_STR("scope " << cat(p, from)));
            Scope* s = in->scope(cat(p, from));
            VF_EQ(s->id(), t.prefix + "::" + full, "scope", "id");
            addScopes(t, p, p.size());
            event("scopes added");
            break;
        }
        case 7: { // malformed, where something else could have been made.
            std::string bad = full + (r.chance(50) ? "::q<" : "::q:r");
            describe("malformed " + bad);
            int how = r.below(4);
            if (how == 3) bad += "::z";
            VF_CHECK(raises([&] {
                switch (how) {
                case 0: t.root->addType(bad); break;
                case 1: t.root->scope(bad); break;
                case 2: Registry::add(t.prefix + "::" + bad, [] (Type*) {}); break;
                default: t.root->addFunction(bad, [] { return 1; }); break;
                }
            }), "malformed", bad << " accepted");
            event("malformed additions");
            break;
        }
        default: break;
        }
        t.pool.push_back(p);
        for (int q = r.range(1, 4); q; --q) query(t, randomName(t, r), r);
        query(t, p, r);
        if (r.chance(20)) listings(t, r);
    }
    listings(t, r);
    for (auto& p : t.pool) query(t, p, r);
    listings(t, r);
    event("trees");
    distinct(path);

    if (count < 60) { // everything, from the top.
        auto all = Registry::globalScope()->functions(true);
        VF_EQ(std::set<std::string>(all.begin(), all.end()).size(), all.size(), "listing", "duplicates in the global listing");
        for (auto& f : t.fns) VF_CHECK(std::count(all.begin(), all.end(), t.prefix + "::" + f.first), "listing", f.first << " isn't listed globally");
        auto types = Registry::globalScope()->types(true);
        VF_EQ(std::set<std::string>(types.begin(), types.end()).size(), types.size(), "listing", "duplicates in the global listing");
        for (auto& f : t.types) VF_CHECK(std::count(types.begin(), types.end(), t.prefix + "::" + f), "listing", f << " isn't listed globally");
        event("global listings");
    }
}

// ------------------------------------------------------------------ global functions and variables

void globals(Rng& r)
{
    using namespace c13;
    Scope* g = Registry::globalScope();
    VF_CHECK(g->isGlobal() && !g->parent() && g->id().empty(), "scope", "the global scope");
    VF_EQ((void*) reflect::scope(), (void*) g, "scope", "the global scope");
    bool from = r.chance(50);
    const Scope* s = from ? reflect::scope("c13") : g;
    std::string p = from ? "" : "c13::";
    describe("globals in <" + s->id() + ">");
    int x = r.range(-1000, 1000);
    VF_EQ(s->call<int>(p + "twice", x), 2 * x, "global", "function");
    VF_EQ(s->call<int>(p + "over", x), x + 1, "global", "overloaded function");
    VF_EQ(s->call<std::string>(p + "over", std::string("q")), std::string("q+"), "global", "overloaded function");
    VF_EQ(s->call<int>(p + "deep::fn"), 77, "global", "nested function");
    s->call<void>(p + "var", x);
    VF_EQ(var, x, "global", "variable written");
    var = x + 5;
    VF_EQ(s->call<int>(p + "var"), x + 5, "global", "variable read");
    std::string str(r.below(40), 'c');
    s->call<void>(p + "text", str);
    VF_EQ(text, str, "global", "text written");
    Value copy = s->call<Value>(p + "text");
    text += "more";
    VF_EQ(copy.get<std::string>(), str, "global", "reading gives a copy");
    VF_EQ(s->call<std::string>(p + "text"), str + "more", "global", "text read");
    vt::A a(x);
    s->call<void>(p + "object", a);
    VF_EQ(object.v, x, "global", "object written");
    Value o = s->call<Value>(p + "object");
    o.call<void>("set", x + 1);
    VF_EQ(object.v, x, "global", "reading gives a copy");
    VF_EQ(s->call<int>(p + "cvar"), 17, "global", "constant read");
    VF_CHECK(raises([&] { s->call<void>(p + "cvar", 5); }), "global", "constant written");
    VF_EQ(cvar, 17, "global", "constant");
    s->call<void>(p + "deep::deepVar", long(x));
    VF_EQ(deep::deepVar, long(x), "global", "nested variable");
    VF_EQ(s->scope(p + "deep")->call<long>("deepVar"), long(x), "global", "nested variable");
    VF_EQ((const void*) const_cast<Scope*>(s)->type(p + "deep::T"), (const void*) reflect::type<deep::T>(), "type", "static type");
    for (const char* n : { "nothing", "deep::nothing", "nothing::deep", "twice::x", "deep::fn::y", "ar", "vars" }) {
        VF_CHECK(!s->hasFunction(p + n) && !s->hasScope(p + n), "absent", n << " is there");
        VF_CHECK(!const_cast<Scope*>(s)->hasType(p + n), "absent", n << " is there");
        VF_CHECK(raises([&] { s->call<int>(p + n); }), "absent", n << " can be called");
        VF_CHECK(raises([&] { reflect::scope("c13::" + std::string(n)); }), "absent", n << " is a scope");
    }
    VF_EQ(list(reflect::scope("c13")->scopes()), std::string(list(std::vector<std::string>(1, "deep"))), "listing", "scopes");
    VF_EQ(list(reflect::scope("c13")->functions()), list(std::vector<std::string>{ "var", "cvar", "text", "object", "twice", "over" }), "listing", "functions");
    event("globals");
}

void run(uint64_t idx, Rng& r)
{
    switch (r.below(10)) {
    case 0: case 1: globals(r); break;
    case 2: case 3: case 4: for (int i = 0; i < 5; ++i) names(r); break;
    default: tree(r, idx); break;
    }
}

} // namespace

const vf::Harness harness = { "c13", run, nullptr, nullptr };
