// C02: many threads look up types for the first time and use them, each scenario in a fresh process, under ThreadSanitizer.
#include "c01types.h"
#include "threads.h"
#include <unordered_set>

using namespace vf;
using namespace c01;
using reflect::Type;
using reflect::Value;
using reflect::Argument;
using reflect::Registry;

namespace c02 {
struct Num { int v; Num() : v(0) {} explicit Num(int v) : v(v) {} int add(int x) const { return v + x; } int twice() const { return v * 2; } double add(const std::string& s) const { return v + double(s.size()); } };
struct ByValue { int v; int take(reflect::Value a) const { return a.get<int>() + v; } reflect::Value give() const { return reflect::Value(v + 1); } };
enum class Color { Red, Green };
template<typename T> struct Wrap { T inner; std::vector<T> list; };
}

reflectTypeDecl(c02::Num)
reflectTypeDecl(c02::ByValue)
reflectTypeImpl(c02::Num)
{
    c01::stall(); reflectPlumbing(); reflectCons(int); reflectField(v);
    reflectFn(twice); reflectFnTyped(add, int (c02::Num::*)(int) const); c01::stall(); reflectFnTyped(add, double (c02::Num::*)(const std::string&) const);
    reflectTypeValue(answer, 42);
    reflectFieldTrait(v, special);
}
reflectTypeImpl(c02::ByValue) { reflectPlumbing(); reflectField(v); c01::stall(); reflectFn(take); reflectFn(give); }
reflectTemplate(c02::Wrap, T) { c01::stall(); reflectPlumbing(); reflectField(inner); c01::stall(); reflectField(list); }

namespace {

/* Types that are only registered once they're met. */

struct Met { std::string id; const Type* (*get)(); std::string (*name)(); };
template<typename T> const Type* get() { return reflect::type<T>(); }
template<typename T> Met met(const char* id) { return Met{ id, &get<T>, &reflect::typeId<T> }; }
#define C02_MET(...) met<__VA_ARGS__>(#__VA_ARGS__)

const std::vector<Met>& mets()
{
    using namespace c02;
    static const std::vector<Met> all = {
        C02_MET(std::vector<int>), C02_MET(std::vector<std::vector<int> >), C02_MET(std::vector<std::vector<Plain> >), C02_MET(std::vector<std::string>),
        C02_MET(std::map<std::string, int>), C02_MET(std::map<std::string, std::vector<Plain> >), C02_MET(std::unordered_map<int, std::string>),
        C02_MET(std::shared_ptr<Plain>), C02_MET(std::unique_ptr<Leaf>), C02_MET(std::shared_ptr<std::vector<CycA> >), C02_MET(int*), C02_MET(int**),
        C02_MET(Leaf*), C02_MET(Leaf**), C02_MET(CycB***), C02_MET(Wrap<int>), C02_MET(Wrap<Wrap<int> >), C02_MET(Wrap<Wrap<Wrap<Plain> > >),
        C02_MET(Wrap<std::map<std::string, Wrap<CycA> > >), C02_MET(Box<Wrap<Lone> >), C02_MET(Wrap<Box<Lone> >), C02_MET(Box<Num>),
        C02_MET(std::map<std::string, std::shared_ptr<Wrap<double> > >), C02_MET(double*), C02_MET(std::vector<double>), C02_MET(std::string),
        C02_MET(double), C02_MET(long), C02_MET(char), C02_MET(bool), C02_MET(reflect::Value), C02_MET(const reflect::Type*), C02_MET(unsigned long), C02_MET(void),
        C02_MET(Num), C02_MET(ByValue), C02_MET(float), C02_MET(short), C02_MET(unsigned char),
    };
    return all;
}

struct Got { int kind, i; const Type* t; uint64_t print; };
struct Log { std::vector<Got> got; std::vector<std::pair<std::string, const Type*> > named; std::vector<int> contested; };

// All that can be seen of a type and of those it refers to.
uint64_t look(const Type* root, size_t limit, size_t* seen = nullptr)
{
    std::vector<const Type*> todo(1, root);
    std::unordered_set<const Type*> in(todo.begin(), todo.end());
    uint64_t h = 0;
    auto add = [&] (const Type* t) { if (t && in.size() < limit && in.insert(t).second) todo.push_back(t); };
    for (size_t i = 0; i < todo.size(); ++i) {
        const Type* t = todo[i];
        h = mix(h, vf::hash(t->id()));
        if (t->parent()) h = mix(h, vf::hash(t->parent()->id()));
        add(t->parent());
        if (t->isPointer()) { h = mix(h, vf::hash(t->pointer())); add(t->pointee()); }
        auto names = t->fields();
        std::sort(names.begin(), names.end());
        for (auto& f : names) { const auto& field = t->field(f); h = mix(mix(h, vf::hash(f)), field.offset()); add(field.type()); }
        names = t->functions();
        std::sort(names.begin(), names.end());
        for (auto& f : names) {
            const auto& fn = t->function(f);
            h = mix(mix(h, vf::hash(f)), fn.size());
            for (size_t k = 0; k < fn.size(); ++k) {
                h = mix(h, vf::hash(reflect::signature(fn[k])));
                add(fn[k].returnType().type());
                for (size_t a = 0; a < fn[k].arguments(); ++a) add(fn[k].argument(a).type());
            }
        }
        names = t->traits();
        std::sort(names.begin(), names.end());
        for (auto& x : names) h = mix(h, vf::hash(x));
        if (t->is("vector") || t->is("list") || t->is("map")) add(t->getValue<const Type*>("valueType"));
        h = mix(h, t->isCopiable() * 2 + t->isMovable());
    }
    if (seen) *seen = in.size();
    return h;
}

void lookupStatic(Worker& w, Log& log, int i, int way)
{
    if (way == 8 || way == 9 || way >= 12) way = way % 8 ? 10 : 15;
    const Expected& e = expected()[i];
    if (e.isTemplate && way >= 10) way = 0;
    w.op(i * 16 + way, VF_STR("lookup of " << e.id << " in way " << way));
    bool byName;
    int overlap = 0;
    for (auto& c : counts) overlap += c.begun.load(std::memory_order_relaxed) - c.ended.load(std::memory_order_relaxed);
    const Type* t = lookup(i, way, byName);
    if (overlap) w.event("lookups while a type is described");
    w.event(byName ? "lookups by name" : "lookups by type");
    if (!t) return w.fail("one", "no type");
    VF_TEQ(w, counts[i].begun.load(std::memory_order_relaxed), 1, "once", "descriptions begun");
    VF_TEQ(w, counts[i].ended.load(std::memory_order_relaxed), 1, "complete", "descriptions ended");
    VF_TEQ(w, t->id(), std::string(e.id), "one", "name");
    for (auto& f : e.fields) VF_TCHECK(w, t->hasField(f), "complete", e.id << " has no field " << f);
    for (auto& f : e.functions) VF_TCHECK(w, t->hasFunction(f), "complete", e.id << " has no function " << f);
    log.got.push_back(Got{ 0, i, t, look(t, 12) });
}

void lookupMet(Worker& w, Log& log, int i, bool byName)
{
    const Met& m = mets()[i];
    w.op(300 + i, "lookup of " + m.id);
    const Type* t = nullptr;
    if (byName) {
        // By name only once someone met it, which may or may not be the case.
        if (w.raises([&] { t = reflect::type(m.name()); })) { w.event("met too early"); byName = false; }
    }
    if (!byName) t = m.get();
    if (!t) return w.fail("one", "no type");
    VF_TEQ(w, t->id(), m.name(), "one", "name");
    w.event("lookups of templates");
    log.got.push_back(Got{ 1, i, t, look(t, 12) });
}

/* What's done with the types. */

void use(Worker& w, Rng& r)
{
    int what = r.below(16);
    w.op(600 + what, VF_STR("use " << what));
    w.event("uses");
    switch (what) {
    case 0: { // construct
        int n = r.range(-100, 100);
        Value v = reflect::type<c02::Num>()->construct(n);
        VF_TEQ(w, v.get<c02::Num>().v, n, "use", "constructed");
        VF_TEQ(w, v.call<int>("add", 5), n + 5, "use", "overload");
        VF_TEQ(w, v.call<double>("add", std::string("abc")), n + 3.0, "use", "overload");
        VF_TEQ(w, reflect::type<c02::Num>()->getValue<int>("answer"), 42, "use", "trait");
        VF_TCHECK(w, reflect::type<c02::Num>()->field("v").is("special"), "use", "trait");
        break;
    }
    case 1: { // fields
        Leaf l; l.b = 1; l.m = 2; l.l = 3; l.s = "s";
        Value v(l);
        VF_TEQ(w, v.field<int>("b") + v.field<int>("m") * 10 + v.field<int>("l") * 100, 321, "use", "fields");
        v.field("s").assign(std::string("other"));
        VF_TEQ(w, l.s, std::string("other"), "use", "assigned");
        break;
    }
    case 2: { // inherited methods, parents
        Leaf l; l.b = 7;
        Value v(l);
        VF_TEQ(w, v.call<int>("base"), 7, "use", "inherited");
        VF_TCHECK(w, &reflect::cast<Base&>(v) == &l, "use", "parent");
        VF_TCHECK(w, reflect::type<Leaf>()->isChildOf<Base>() && !reflect::type<Base>()->isChildOf(reflect::type<Leaf>()), "use", "relations");
        break;
    }
    case 3: { // conversions
        Conv c = { int(r.below(1000)) };
        Value v(c);
        VF_TEQ(w, reflect::cast<Lone>(v).v, c.v, "use", "converted");
        VF_TCHECK(w, reflect::type<Conv>()->hasConverter<Lone>(), "use", "converter");
        VF_TEQ(w, reflect::type<Conv>()->converter<Lone>().call<Lone>(c).v, c.v, "use", "converted");
        break;
    }
    case 4: { // functions of functions
        Func f; Plain p = { 4, 0 };
        Value v(f);
        VF_TEQ(w, v.call<Lone>("make", p, 3).v, 7, "use", "called");
        Leaf l; l.l = 0;
        v.call<void>("take", Value(l));
        VF_TEQ(w, l.l, 1, "use", "called");
        break;
    }
    case 5: { // containers
        std::vector<int> xs;
        Value v(xs);
        for (int i = 0; i < 5; ++i) v.call<void>("push_back", i);
        VF_TEQ(w, xs.size(), 5u, "use", "pushed");
        VF_TEQ(w, v[size_t(2)].get<int>(), 2, "use", "element");
        break;
    }
    case 6: {
        std::map<std::string, std::string> m;
        Value v(m);
        v[std::string("k")].assign(std::string("v"));
        VF_TEQ(w, m["k"], std::string("v"), "use", "element");
        VF_TEQ(w, v.call<size_t>("size"), 1u, "use", "size");
        break;
    }
    case 7: { // numbers
        int n = r.range(-1000, 1000);
        Value v(n);
        VF_TEQ(w, (v + 4).get<int>(), n + 4, "use", "sum");
        VF_TEQ(w, reflect::cast<int>(v.copy()), n, "use", "copied");
        VF_TEQ(w, reflect::type<int>()->getValue<int>("max"), 2147483647, "use", "limit");
        break;
    }
    case 8: { // errors
        Plain p = { 1, 2 };
        Value v(p);
        std::string e;
        VF_TCHECK(w, w.raises([&] { v.field("nope" + std::to_string(w.index)); }, &e), "use", "unknown field");
        VF_TCHECK(w, e.find("nope" + std::to_string(w.index)) != std::string::npos, "use", "message " << e);
        VF_TCHECK(w, w.raises([&] { v.call<void>("get", 1, 2, 3); }), "use", "bad arguments");
        VF_TCHECK(w, w.raises([&] { reflect::cast<Lone>(v); }), "use", "bad cast");
        VF_TCHECK(w, w.raises([&] { reflect::type("c02::nothing" + std::to_string(w.index)); }, &e), "use", "unknown type");
        VF_TCHECK(w, e.find("c02::nothing" + std::to_string(w.index)) != std::string::npos, "use", "message " << e);
        break;
    }
    case 9: { // reads
        const Type* t = r.chance(50) ? reflect::type<Leaf>() : reflect::type<CycB>();
        std::string a = t->print(), b = t->print(4);
        VF_TCHECK(w, a.find(t->id()) != std::string::npos && b.size() > a.size(), "use", "printed " << a);
        VF_TCHECK(w, t->isCopiable() && t->isMovable() && !t->isPointer() && !t->is("nothing"), "use", "queries");
        break;
    }
    case 10: { // values as values
        c02::ByValue b = { int(r.below(50)) };
        Value v(b);
        VF_TEQ(w, v.call<int>("take", 8), b.v + 8, "use", "value passed");
        VF_TEQ(w, v.call<Value>("give").get<int>(), b.v + 1, "use", "value returned");
        VF_TCHECK(w, Argument::make<Value>().type() == reflect::type<Value>(), "use", "type of values");
        break;
    }
    case 11: { // pointers
        auto p = std::make_shared<Plain>();
        p->x = 5;
        Value v(p);
        VF_TEQ(w, (*v).field<int>("x"), 5, "use", "pointee");
        Value q = reflect::type<std::shared_ptr<Plain> >()->construct();
        q.assign(v);
        VF_TEQ(w, p.use_count(), 2, "use", "shared");
        CycA a; CycB b; a.b = &b; b.v = 9;
        VF_TEQ(w, (*Value(a).field("b")).field<int>("v"), 9, "use", "pointee");
        break;
    }
    case 12: { // functions made on the spot
        reflect::Function fn("f", [] (const Plain& p, double d, std::string s) { return p.x + d + s.size(); });
        VF_TEQ(w, fn.call<double>(Plain{ 1, 2 }, 2.5, std::string("ab")), 5.5, "use", "called");
        VF_TCHECK(w, reflect::signature(fn).find("c01::Plain") != std::string::npos, "use", "signature");
        VF_TCHECK(w, (fn.test<double(Plain, double, std::string)>() != reflect::Match::None), "use", "matched");
        break;
    }
    case 13: { // copies and moves of values
        Value v = reflect::type<Leaf>()->construct();
        v.field("s").assign(std::string("long enough to be allocated on the heap"));
        Value c = v.copy(), m = v.move();
        VF_TEQ(w, c.get<Leaf>().s, m.get<Leaf>().s, "use", "copied");
        Value k = c.toConst();
        VF_TCHECK(w, w.raises([&] { k.field("s").assign(std::string("x")); }), "use", "changed");
        break;
    }
    case 14: { // templates
        Box<Box<Lone> > b; b.v.v.v = 6;
        Value v(b);
        VF_TEQ(w, v.field("v").field("v").field<int>("v"), 6, "use", "nested");
        VF_TCHECK(w, &v.call<Box<Lone>&>("get") == &b.v, "use", "reference");
        break;
    }
    default: { // strings
        std::string s = "ab";
        Value v(s);
        VF_TEQ(w, v.call<size_t>("size"), 2u, "use", "size");
        VF_TEQ(w, reflect::type<int>()->id(), reflect::type("int32_t")->id(), "use", "alias");
    }
    }
}

void naming(Worker& w, Log& log, Rng& r, int step)
{
    int what = r.below(6);
    w.op(700 + what, VF_STR("naming " << what));
    switch (what) {
    case 0: case 1: { // an alias of its own
        std::string a = VF_STR("alias::of" << w.index << "_" << step);
        VF_TCHECK(w, w.raises([&] { reflect::type(a); }), "alias", "found " << a);
        if (r.chance(50)) Registry::alias<CycA>(a); else Registry::alias("c01::CycA", a);
        log.named.emplace_back(a, reflect::type(a));
        w.event("aliases");
        break;
    }
    case 2: case 3: { // one that several want
        int k = r.below(3);
        const Type* t = nullptr;
        std::string a = VF_STR("contested" << k), target = expected()[w.index % 8].id;
        if (!w.raises([&] { Registry::alias(target, a); })) { log.contested.push_back(k); t = reflect::type(target); w.event("aliases"); }
        else w.event("aliases taken");
        const Type* found = reflect::type(a);
        if (t) VF_TEQ(w, (const void*) found, (const void*) t, "alias", "type of " + a);
        log.named.emplace_back(a, found);
        break;
    }
    case 4: { // a type of its own
        std::string id = VF_STR("c02rt::T" << w.index << "_" << step);
        std::shared_ptr<std::atomic<int> > loads(new std::atomic<int>(0));
        Registry::add(id, [loads] (Type* t) { loads->fetch_add(1, std::memory_order_relaxed); t->addFunction("f", [] (const CycB& b) { return b.v; }); });
        const Type* t = reflect::type(id);
        VF_TEQ(w, loads->load(std::memory_order_relaxed), 1, "once", "descriptions of " + id);
        VF_TCHECK(w, t->hasFunction("f"), "complete", id);
        log.named.emplace_back(id, t);
        w.event("types added");
        break;
    }
    default: { // one that several add
        std::string id = VF_STR("c02rt::shared" << r.below(2));
        Registry::add(id, [] (Type* t) { c01::stall(); t->addFunction("f", [] { return 1; }); c01::stall(); t->addFunction("g", [] (const Leaf&) {}); });
        const Type* t = reflect::type(id);
        VF_TCHECK(w, t->hasFunction("f") && t->hasFunction("g"), "complete", id);
        log.named.emplace_back(id, t);
        w.event("types added");
    }
    }
}

void scenario(Rng& r)
{
    int n = r.range(2, r.chance(30) ? 8 : 4);
    static const int slows[] = { 0, 0, 1, 1, 20, 150, 600 };
    slow = slows[r.below(7)];
    static const unsigned rates[] = { 0, 3, 10, 50, 300 };
    delayRate = rates[r.below(5)];
    // What all threads start with.
    int kind = r.below(4);
    std::vector<std::pair<int, int> > focus;
    for (int k = r.range(1, 4); k; --k) {
        bool met = r.chance(50);
        focus.emplace_back(met, r.below(met ? mets().size() : size_t(TypeCount)));
    }
    int steps = r.range(1, r.chance(50) ? 4 : 20);
    describe(VF_STR(n << " threads, start " << kind << ", " << focus.size() << " types first, " << steps << " steps, slowness " << slow << ", delays " << delayRate));

    Registry::add("c02rt::bare", [] (Type*) {});
    const Argument bare(reflect::type("c02rt::bare"), reflect::RefType::Copy, false);
    std::vector<Log> logs(n);
    threads(n, r, [&] (Worker& w) {
        Log& log = logs[w.index];
        Rng& r = w.rng;
        auto first = focus;
        if (r.chance(50)) r.shuffle(first);
        if (kind < 2) for (auto& f : first) { if (f.first) lookupMet(w, log, f.second, r.chance(20)); else lookupStatic(w, log, f.second, r.below(Ways)); }
        if (kind == 2) { // the first comparison of arguments, within and out of a description.
            if (w.index % 2) lookupStatic(w, log, r.below(TypeCount), r.below(Ways));
            else {
                w.op(1, "comparison");
                if (r.chance(70)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
                VF_TCHECK(w, bare.isConvertibleTo(bare) == reflect::Match::Exact, "use", "same argument");
                w.event("first comparisons");
            }
        }
        for (int s = 0; s < steps; ++s) {
            if (!w.fails.empty()) return;
            int what = r.below(10);
            if (what < 3) lookupStatic(w, log, r.below(TypeCount), r.below(Ways));
            else if (what < 6) lookupMet(w, log, r.below(mets().size()), r.chance(40));
            else if (what < 9) use(w, r);
            else naming(w, log, r, s);
        }
    });

    // All got the same, and it was finished.
    std::map<std::pair<int, int>, const Type*> statics;
    std::map<std::string, const Type*> named;
    std::map<int, int> contested;
    for (auto& log : logs) {
        for (auto& g : log.got) {
            auto it = statics.emplace(std::make_pair(g.kind, g.i), g.t);
            std::string id = g.kind ? mets()[g.i].id : expected()[g.i].id;
            VF_EQ((const void*) g.t, (const void*) it.first->second, "one", "descriptor of " + id);
            VF_CHECK(g.t == reflect::type(g.t->id()), "one", "descriptor of " << id);
            size_t seen;
            VF_CHECK(g.print == look(g.t, 12, &seen), "complete", "the description of " << id << " changed after it was handed out");
            event("descriptors compared", seen);
        }
        for (auto& x : log.named) {
            auto it = named.emplace(x);
            VF_EQ((const void*) x.second, (const void*) it.first->second, "one", "descriptor of " + x.first);
            VF_EQ((const void*) reflect::type(x.first), (const void*) x.second, "alias", x.first);
        }
        for (int k : log.contested) contested[k]++;
    }
    for (auto& c : contested) VF_EQ(c.second, 1, "alias", "registrations of one alias");
    int described = 0;
    for (int i = 0; i < TypeCount; ++i) {
        VF_CHECK(counts[i].begun <= 1, "once", expected()[i].id << " was described " << counts[i].begun << " times");
        VF_EQ(int(counts[i].begun), int(counts[i].ended), "complete", "descriptions ended");
        described += counts[i].begun;
    }
    event("descriptions", described);
    event("scenarios");
}

void run(uint64_t, Rng& r) { forked("", [&] { scenario(r); }, 20); }

} // namespace

const vf::Harness harness = { "c02", run, nullptr, nullptr };
