// C01: histories of lookups in fresh processes, against counters in the descriptions and a closure of dependencies.
#include "c01types.h"

using namespace vf;
using namespace c01;
using reflect::Type;
using reflect::Registry;
using reflect::Scope;

namespace {

std::string list(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return vf::join(v); }

// Types that refer to each other, registered at run time.
struct RtType
{
    std::string id;
    std::vector<std::pair<int, bool> > deps;    // static or run-time type, by name.
    std::vector<std::string> aliases;
    bool added = false;
    int loads = 0;
    int parent = -1;
    const Type* made = nullptr;
};

struct Model
{
    std::set<std::string> allowed;                  // what lookups so far may have described.
    std::map<std::string, const Type*> seen;        // what they gave.
    std::vector<RtType> rt;
    std::string path;
};

void allow(Model& m, const std::string& id)
{
    if (!m.allowed.insert(id).second) return;
    int i = indexOf(id);
    if (i >= 0) for (auto& d : expected()[i].deps) allow(m, d);
    for (auto& t : m.rt) {
        if (t.id != id) continue;
        for (auto& d : t.deps) if (d.second) { if (m.rt[d.first].added) allow(m, m.rt[d.first].id); } else allow(m, expected()[d.first].id);
        if (t.parent >= 0 && m.rt[t.parent].added) allow(m, m.rt[t.parent].id);
    }
}

void complete(int i, const Type* t)
{
    const Expected& e = expected()[i];
    VF_EQ(t->id(), std::string(e.id), "descriptor", "name");
    VF_EQ(list(t->fields()), list(e.fields), "complete", VF_STR("fields of " << e.id));
    VF_EQ(list(t->functions()), list(e.functions), "complete", VF_STR("functions of " << e.id));
    for (auto& f : e.functions) if (f == "operator=" && i != TMid && i != TLeaf) VF_EQ(t->function(f).size(), 2u, "complete", "assignments");
}

void audit(Model& m)
{
    for (int i = 0; i < TypeCount; ++i) {
        const Expected& e = expected()[i];
        int begun = counts[i].begun, ended = counts[i].ended;
        VF_CHECK(begun <= 1, "once", e.id << " was described " << begun << " times");
        VF_EQ(ended, begun, "complete", VF_STR("descriptions ended of " << e.id));
        if (!m.allowed.count(e.id)) VF_EQ(begun, 0, "lazy", VF_STR("descriptions of " << e.id << " before it's needed"));
        if (m.seen.count(e.id)) VF_EQ(begun, 1, "once", VF_STR("descriptions of " << e.id));
        if (begun) { bool byName; const Type* t = lookup(i, 0, byName); complete(i, t); VF_EQ((const void*) reflect::type(e.id), (const void*) t, "one", e.id); }
    }
    for (auto& t : m.rt) {
        VF_CHECK(t.loads <= 1, "once", t.id << " was described " << t.loads << " times");
        if (!m.allowed.count(t.id)) VF_EQ(t.loads, 0, "lazy", "descriptions of " + t.id);
        if (m.seen.count(t.id)) VF_EQ(t.loads, 1, "once", "descriptions of " + t.id);
    }
    event("audits");
}

void got(Model& m, const std::string& id, const Type* t)
{
    VF_CHECK(t, "one", "no descriptor for " << id);
    auto it = m.seen.emplace(id, t);
    VF_EQ((const void*) t, (const void*) it.first->second, "one", "descriptor of " + id);
    VF_EQ(t->id(), id, "descriptor", "name");
}

// The types that other descriptors refer to are the same.
void references(Model& m)
{
    auto same = [&] (int holder, const Type* t, int target) {
        bool byName;
        if (!m.seen.count(expected()[holder].id)) return;
        allow(m, expected()[target].id);
        VF_EQ((const void*) t, (const void*) lookup(target, 0, byName), "one", VF_STR(expected()[target].id << " as referred to by " << expected()[holder].id));
        event("references compared");
    };
    auto h = [&] (int i) -> const Type* { auto it = m.seen.find(expected()[i].id); return it == m.seen.end() ? nullptr : it->second; };
    if (h(TMid)) same(TMid, h(TMid)->parent(), TBase);
    if (h(TLeaf)) { same(TLeaf, h(TLeaf)->parent(), TMid); same(TLeaf, h(TLeaf)->parent()->parent(), TBase); same(TLeaf, h(TLeaf), TLeaf); }
    if (h(TCycA)) {
        same(TCycA, h(TCycA)->field("b").type()->pointee(), TCycB);
        same(TCycA, h(TCycA)->field("kids").type()->getValue<const Type*>("valueType"), TCycA);
        same(TCycA, h(TCycA)->field("b").type()->pointee()->field("a").type()->pointee(), TCycA);
    }
    if (h(TCycB)) {
        same(TCycB, h(TCycB)->field("byName").type()->getValue<const Type*>("valueType"), TCycB);
        same(TCycB, h(TCycB)->field("back").type()->pointee(), TCycA);
    }
    if (h(TSelf)) {
        same(TSelf, h(TSelf)->field("next").type()->pointee(), TSelf);
        same(TSelf, h(TSelf)->field("shared").type()->pointee(), TSelf);
        same(TSelf, h(TSelf)->field("all").type()->getValue<const Type*>("valueType")->pointee(), TSelf);
    }
    if (h(TFunc)) {
        const auto& f = h(TFunc)->function("make")[0];
        same(TFunc, f.returnType().type(), TLone);
        same(TFunc, f.argument(1).type(), TPlain);
        same(TFunc, f.argument(0).type(), TFunc);
        same(TFunc, h(TFunc)->function("take")[0].argument(1).type(), TLeaf);
    }
    if (h(TConv)) same(TConv, h(TConv)->function("operator c01::Lone()")[0].returnType().type(), TLone);
    if (h(TOver)) same(TOver, h(TOver)->function("box")[0].argument(0).type(), TBoxLone);
    if (h(TBoxPlain)) same(TBoxPlain, h(TBoxPlain)->field("v").type(), TPlain);
    if (h(TBoxBoxLone)) same(TBoxBoxLone, h(TBoxBoxLone)->field("v").type()->field("v").type(), TLone);
    if (h(TBoxCycA)) same(TBoxCycA, h(TBoxCycA)->field("v").type(), TCycA);
    if (h(TNested)) same(TNested, h(TNested)->field("p").type(), TPlain);
}

void add(Model& m, int i, Rng& r)
{
    RtType& t = m.rt[i];
    uint64_t seed = r.next();
    Model* pm = &m;
    Registry::add(t.id, [pm, i, seed] (Type* type) {
        Rng r(seed);
        RtType& t = pm->rt[i];
        ++t.loads;
        t.made = type;
        VF_EQ((const void*) reflect::type(t.id), (const void*) type, "one", "descriptor within its own description");
        type->addFunction("begin", [] { return 1; });
        if (t.parent >= 0 && pm->rt[t.parent].added) type->parent(reflect::type(pm->rt[t.parent].id));
        size_t k = 0;
        for (auto& d : t.deps) {
            bool byName;
            const Type* dep = nullptr;
            if (!d.second) dep = lookup(d.first, r.below(10), byName);
            else if (pm->rt[d.first].added) dep = reflect::type(pm->rt[d.first].id);
            else { VF_CHECK(raises([&] { reflect::type(pm->rt[d.first].id); }), "unknown", "found " << pm->rt[d.first].id); continue; }
            std::string name = "dep" + std::to_string(k++);
            type->addField(name, reflect::Field(name, reflect::Argument(dep, reflect::RefType::Copy, false), k * 8));
        }
        type->addFunction("end", [] { return 1; });
    });
    t.added = true;
    event("types registered");
}

void history(Rng& r, int steps)
{
    Model m;
    for (int i = 0; i < TypeCount; ++i) VF_EQ(int(counts[i].begun), 0, "lazy", VF_STR("descriptions before anything was looked up of " << expected()[i].id));

    m.rt.resize(r.range(2, 6));
    for (size_t i = 0; i < m.rt.size(); ++i) {
        RtType& t = m.rt[i];
        t.id = VF_STR("c01rt::" << (r.chance(30) ? "sub::" : "") << "R" << i << (r.chance(20) ? "<c01::Plain,int>" : ""));
        for (int n = r.below(4); n; --n) { bool rt = r.chance(70); t.deps.emplace_back(r.below(rt ? m.rt.size() : size_t(TypeCount)), rt); }
        if (i && r.chance(30)) t.parent = r.below(i);
    }

    for (int n = 0; n < steps; ++n) {
        int op = r.below(12);
        if (op < 6) { // a static type, any way.
            int i = r.below(TypeCount), way = r.below(Ways);
            const Expected& e = expected()[i];
            describe(VF_STR("lookup of " << e.id << " in way " << way << " after" << m.path));
            m.path += VF_STR(" " << i << "/" << way);
            bool byName = false;
            // Templates are registered when they're first met.
            bool registered = !e.isTemplate || m.seen.count(e.id) || counts[i].begun || way < 10;
            if (registered) allow(m, e.id);
            const Type* t = nullptr;
            bool raised = raises([&] { t = lookup(i, way, byName); });
            if (!registered && m.allowed.count(e.id)) { if (t) got(m, e.id, t); }
            else VF_EQ(raised, !registered, "unknown", VF_STR("lookup refused of " << e.id));
            if (!raised) { got(m, e.id, t); complete(i, t); event(byName ? "lookups by name" : "lookups by type"); }
            else event("unregistered templates");
        }
        else if (op < 8) { // a run-time type.
            size_t i = r.below(m.rt.size());
            RtType& t = m.rt[i];
            if (!t.added && r.chance(60)) add(m, i, r);
            describe(VF_STR("lookup of " << t.id << " after" << m.path));
            m.path += VF_STR(" R" << i << t.added);
            if (t.added) allow(m, t.id);
            std::string name = t.aliases.empty() || r.chance(50) ? t.id : r.pick(t.aliases);
            const Type* ty = nullptr;
            bool raised = raises([&] {
                if (r.chance(30) && name == t.id) ty = Registry::globalScope()->type(name);
                else ty = reflect::type(name);
            });
            VF_EQ(raised, !t.added, "unknown", "lookup refused of " + name);
            if (raised) { event("lookups before registration"); break; }
            got(m, t.id, ty);
            VF_EQ((const void*) ty, (const void*) t.made, "one", "descriptor described");
            VF_CHECK(ty->hasFunction("begin") && ty->hasFunction("end"), "complete", t.id << " isn't complete");
            event("run time lookups");
        }
        else if (op == 8) { // an alias of something.
            size_t i = r.below(m.rt.size());
            std::string a = VF_STR("alias" << n << (r.chance(50) ? "::of<x>" : ""));
            describe(VF_STR("alias " << a << " of " << m.rt[i].id));
            VF_CHECK(raises([&] { reflect::type(a); }), "unknown", "found " << a);
            Registry::alias(m.rt[i].id, a);
            m.rt[i].aliases.push_back(a);
            std::string other = m.rt[(i + 1) % m.rt.size()].id;
            VF_CHECK(raises([&] { Registry::alias(other, a); }), "alias", a << " was aliased twice");
            event("aliases");
        }
        else if (op == 9) { // nothing.
            static const char* names[] = { "c01::Plai", "c01::Plain ", "c01", "Plain", "c01::", "::c01::Plain", "c01::plain", "c01::Box", "c01::Box<c01::Plain", "c01::Plain*x", "", "c01rt::R", "int*", "std::vector<c01::Nothing>" };
            const char* name = names[r.below(13)];
            describe(VF_STR("lookup of <" << name << "> after" << m.path));
            if (std::string(name) == "int*") break; // may be registered.
            VF_CHECK(raises([&] { reflect::type(name); }), "unknown", "found " << name);
            VF_CHECK(raises([&] { Registry::globalScope()->type(name); }), "unknown", "found " << name);
            event("unknown names");
        }
        else if (op == 10) { // registered again: the first one stays.
            size_t i = r.below(m.rt.size());
            if (!m.rt[i].added) break;
            Registry::add(m.rt[i].id, [] (Type*) { fail("once", "a second loader was run"); });
            event("registered again");
        }
        else references(m);
        audit(m);
    }
    // Everything seen is still the same, in every way.
    for (auto& s : std::map<std::string, const Type*>(m.seen)) {
        int i = indexOf(s.first);
        describe(VF_STR("all ways for " << s.first << " after" << m.path));
        if (i < 0) { VF_EQ((const void*) reflect::type(s.first), (const void*) s.second, "one", s.first); continue; }
        for (int way = 0; way < Ways; ++way) { bool byName; got(m, s.first, lookup(i, way, byName)); }
        complete(i, s.second);
    }
    references(m);
    audit(m);
    event("histories");
    distinct(m.path);
}

template<typename T> void alias(const char* name)
{
    describe(VF_STR("alias " << name));
    VF_EQ((const void*) reflect::type(name), (const void*) reflect::type<T>(), "alias", name);
    VF_EQ((const void*) reflect::type(reflect::typeId<T>()), (const void*) reflect::type<T>(), "alias", name);
    event("built-in aliases");
}
#define C01_ALIAS(T) alias<T>(#T)
// Templates are known by the name of the template and of its arguments.
std::string nameOf(const char* t, std::initializer_list<std::string> args) { std::string s; for (auto& a : args) s += (s.empty() ? "" : ",") + a; return std::string(t) + "<" + s + ">"; }
template<typename T> void named(const std::string& name)
{
    describe("template " + name);
    const Type* t = reflect::type<T>();
    VF_EQ((const void*) reflect::type(name), (const void*) t, "alias", "type called " + name);
    VF_EQ(t->id(), name, "alias", "name");
    VF_EQ(reflect::typeId<T>(), name, "alias", "name");
    event("built-in templates");
}
template<typename K, typename V> void templates()
{
    const std::string k = reflect::typeId<K>(), v = reflect::typeId<V>();
    named<std::vector<K> >(nameOf("std::vector", { k }));
    named<std::shared_ptr<V> >(nameOf("std::shared_ptr", { v }));
    named<std::unique_ptr<K> >(nameOf("std::unique_ptr", { k }));
    named<K*>(k + "*");
    named<V**>(v + "**");
    named<std::map<K, V> >(nameOf("std::map", { k, v }));
    named<std::map<V, K> >(nameOf("std::map", { v, k }));
    named<std::unordered_map<K, V> >(nameOf("std::unordered_map", { k, v }));
    named<std::unordered_map<V, K> >(nameOf("std::unordered_map", { v, k }));
    named<std::vector<std::map<K, std::vector<V> > > >(nameOf("std::vector", { nameOf("std::map", { k, nameOf("std::vector", { v }) }) }));
    named<std::unordered_map<K, std::shared_ptr<V>*> >(nameOf("std::unordered_map", { k, nameOf("std::shared_ptr", { v }) + "*" }));
}
void builtins(Rng& r)
{
    C01_ALIAS(short); C01_ALIAS(unsigned short); C01_ALIAS(long); C01_ALIAS(unsigned long); C01_ALIAS(long long); C01_ALIAS(unsigned long long);
    C01_ALIAS(size_t); C01_ALIAS(ssize_t); C01_ALIAS(intmax_t); C01_ALIAS(uintmax_t); C01_ALIAS(intptr_t); C01_ALIAS(uintptr_t);
    C01_ALIAS(int8_t); C01_ALIAS(uint8_t); C01_ALIAS(int16_t); C01_ALIAS(uint16_t); C01_ALIAS(int32_t); C01_ALIAS(uint32_t); C01_ALIAS(int64_t); C01_ALIAS(uint64_t);
    C01_ALIAS(int_fast8_t); C01_ALIAS(uint_fast8_t); C01_ALIAS(int_fast16_t); C01_ALIAS(uint_fast16_t); C01_ALIAS(int_fast32_t); C01_ALIAS(uint_fast32_t); C01_ALIAS(int_fast64_t); C01_ALIAS(uint_fast64_t);
    C01_ALIAS(int_least8_t); C01_ALIAS(uint_least8_t); C01_ALIAS(int_least16_t); C01_ALIAS(uint_least16_t); C01_ALIAS(int_least32_t); C01_ALIAS(uint_least32_t); C01_ALIAS(int_least64_t); C01_ALIAS(uint_least64_t);
    C01_ALIAS(bool); C01_ALIAS(char); C01_ALIAS(int); C01_ALIAS(unsigned int); C01_ALIAS(float); C01_ALIAS(double); C01_ALIAS(long double); C01_ALIAS(std::string); C01_ALIAS(void);
    switch (r.below(3)) {
    case 0: templates<int, std::string>(); break;
    case 1: templates<std::string, long>(); break;
    default: templates<char, double>(); break;
    }
    // By name before by type, for what's only known once it's met.
    VF_EQ((const void*) reflect::type<std::vector<int> >(), (const void*) reflect::type("std::vector<int>"), "alias", "vector");
    VF_EQ((const void*) reflect::type<std::vector<int> >()->getValue<const Type*>("valueType"), (const void*) reflect::type("int32_t"), "alias", "element");
    bool byName = false; std::string how;
    (void) byName;
    std::map<std::string, int> map; std::unique_ptr<int> up;
    VF_EQ((const void*) reflect::Value(map).type(), (const void*) reflect::type("std::map<std::string,int>"), "alias", "map");
    VF_EQ((const void*) reflect::Value(up).type(), (const void*) reflect::type("std::unique_ptr<int>"), "alias", "unique_ptr");
    distinct("builtins");
}

void run(uint64_t idx, Rng& r)
{
    forked("", [&] {
        if (idx % 100 == 0) builtins(r);
        history(r, r.chance(70) ? r.range(3, 20) : r.range(20, 60));
    });
}

} // namespace

const vf::Harness harness = { "c01", run, nullptr, nullptr };
