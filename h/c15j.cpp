// C15: types whose JSON description is wrong are refused each time, alone or within others, and spoil nothing.
#include "common.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "utils/json.h"

using namespace vf;

namespace c15j {

int custom = 0; // custom functions that ran.

struct Good { int64_t a = 1; std::string s = "x"; std::vector<int64_t> v = { 1, 2 }; };
struct Node { std::shared_ptr<Node> next; int64_t v = 3; Good good; };
struct Own { int64_t v = 4; };

struct Dup { int64_t a = 1, b = 2, c = 3; };
struct DupName { int64_t a = 1, b = 2; };
struct NoFn { int64_t a = 1; };
struct WrongFn { int64_t a = 1; };
struct WrongTrait { int64_t a = 1, b = 2; };
struct NoElement { int64_t a = 1; };

struct HasDup { Good g; Dup d; int64_t z = 9; };
struct PtrDup { int64_t a = 1; std::shared_ptr<DupName> p; Good g; };
struct Cyc2;
struct Cyc1 { std::shared_ptr<Cyc2> n; int64_t v = 1; };
struct Cyc2 { std::shared_ptr<Cyc1> n; NoFn x; };
struct HasAll { Node n; std::vector<WrongTrait> w; NoElement e; std::map<std::string, WrongFn> m; int64_t z = 1; };

}

#define BAD_PLUMBING() reflectPlumbing(); reflectAllocPlumbing()
namespace rj = reflect::json;

reflectTypeDecl(c15j::Good) reflectTypeDecl(c15j::Node) reflectTypeDecl(c15j::Own) reflectTypeDecl(c15j::Dup) reflectTypeDecl(c15j::DupName)
reflectTypeDecl(c15j::NoFn) reflectTypeDecl(c15j::WrongFn) reflectTypeDecl(c15j::WrongTrait) reflectTypeDecl(c15j::NoElement)
reflectTypeDecl(c15j::HasDup) reflectTypeDecl(c15j::PtrDup) reflectTypeDecl(c15j::Cyc1) reflectTypeDecl(c15j::Cyc2) reflectTypeDecl(c15j::HasAll)

reflectTypeImpl(c15j::Good) { BAD_PLUMBING(); reflectField(a); reflectField(s); reflectField(v); reflectFieldValue(s, json, rj::alias("text")); }
reflectTypeImpl(c15j::Node) { BAD_PLUMBING(); reflectField(next); reflectField(v); reflectField(good); }
reflectTypeImpl(c15j::Own)
{
    BAD_PLUMBING();
    reflectTypeValue(json, rj::custom("in", "out"));
    reflectCustom(in) (T_& o, rj::Reader& r) { c15j::custom++; rj::parse(r, o.v); };
    reflectCustom(out) (const T_& o, rj::Writer& w) { c15j::custom++; rj::printInt(w, o.v); };
}
reflectTypeImpl(c15j::Dup)
{
    BAD_PLUMBING(); reflectField(a); reflectField(b); reflectField(c);
    reflectFieldValue(b, json, rj::alias("shared"));
    reflectFieldValue(c, json, rj::alias("shared"));
}
reflectTypeImpl(c15j::DupName) { BAD_PLUMBING(); reflectField(a); reflectField(b); reflectFieldValue(b, json, rj::alias("a")); }
reflectTypeImpl(c15j::NoFn) { BAD_PLUMBING(); reflectField(a); reflectTypeValue(json, rj::custom("missing", "missing")); }
reflectTypeImpl(c15j::WrongFn)
{
    BAD_PLUMBING(); reflectField(a); reflectTypeValue(json, rj::custom("in", "out"));
    reflectCustom(in) (T_&, const std::string&) { c15j::custom++; };
    reflectCustom(out) (T_&, rj::Writer&, int) { c15j::custom++; };
}
reflectTypeImpl(c15j::WrongTrait) { BAD_PLUMBING(); reflectField(a); reflectField(b); reflectFieldValue(b, json, std::string("alias")); }
reflectTypeImpl(c15j::NoElement) { BAD_PLUMBING(); reflectField(a); reflectTypeTrait(list); }
reflectTypeImpl(c15j::HasDup) { BAD_PLUMBING(); reflectField(g); reflectField(d); reflectField(z); }
reflectTypeImpl(c15j::PtrDup) { BAD_PLUMBING(); reflectField(a); reflectField(p); reflectField(g); }
reflectTypeImpl(c15j::Cyc1) { BAD_PLUMBING(); reflectField(n); reflectField(v); }
reflectTypeImpl(c15j::Cyc2) { BAD_PLUMBING(); reflectField(n); reflectField(x); }
reflectTypeImpl(c15j::HasAll) { BAD_PLUMBING(); reflectField(n); reflectField(w); reflectField(e); reflectField(m); reflectField(z); }

namespace {

using namespace c15j;

struct Action
{
    const char* name;
    std::function<void(bool print, std::string& out, const std::string& in)> run; // throws if it's refused.
    std::vector<std::string> named;
};

// Prints or reads the object. What it was must be left unchanged by a refusal: checked by the caller's state function.
template<typename T>
Action action(const char* name, std::function<void(T&)> fill, std::function<std::string(const T&)> state, std::vector<std::string> named = {})
{
    auto run = [=] (bool print, std::string& out, const std::string& in) {
        T obj = T();
        if (fill) fill(obj);
        std::string before = state(obj);
        try {
            if (print) {
                std::ostringstream s;
                rj::Writer w(s);
                struct Out { std::ostringstream& s; std::string& out; ~Out() { out = s.str(); } } keep = { s, out };
                rj::print(w, obj);
                VF_CHECK(!w.error(), "json-print", w.error().what());
            }
            else {
                std::istringstream s(in);
                rj::Reader r(s);
                rj::parse(r, obj);
                VF_CHECK(!r.error(), "json-read", r.error().what() << " in " << in);
                out = state(obj);
                return;
            }
        }
        catch (const reflect::Error&) {
            std::string after = state(obj);
            VF_EQ(after, before, "json-changed", VF_STR("object of " << name));
            throw;
        }
        VF_EQ(state(obj), before, "json-changed", VF_STR("printed object of " << name));
    };
    return { name, run, named };
}

std::string show(const Good& g) { return VF_STR(g.a << g.s << g.v.size() << (g.v.empty() ? 0 : g.v.back()) << ";"); }
std::string show(const Node& n) { return VF_STR(n.v << show(n.good) << (n.next ? show(*n.next) : "-") << ";"); }

struct GoodCase { Action act; std::string printed; std::string in; std::string read; };

const std::vector<GoodCase>& goods()
{
    static const std::vector<GoodCase> all = {
        { action<Good>("Good", nullptr, [] (const Good& g) { return show(g); }), "{\"a\":1,\"text\":\"x\",\"v\":[1,2]}", "{\"text\":\"q\",\"v\":[7],\"a\":5}", "5q37;" },
        { action<Node>("Node", [] (Node& n) { n.next.reset(new Node); }, [] (const Node& n) { return show(n); }),
          "{\"good\":{\"a\":1,\"text\":\"x\",\"v\":[1,2]},\"next\":{\"good\":{\"a\":1,\"text\":\"x\",\"v\":[1,2]},\"next\":null,\"v\":3},\"v\":3}",
          "{\"v\":6,\"next\":{\"next\":{\"v\":8}}}", "61x22;31x22;81x22;-;;;" },
        { action<Own>("Own", nullptr, [] (const Own& o) { return VF_STR(o.v); }), "4", "12", "12" },
        { action<std::vector<Own> >("vector<Own>", [] (std::vector<Own>& v) { v.resize(2); }, [] (const std::vector<Own>& v) { return VF_STR(v.size() << v.back().v); }), "[4,4]", "[1,2]", "42" },
        { action<std::map<std::string, Good> >("map<Good>", [] (std::map<std::string, Good>& m) { m["k"]; }, [] (const std::map<std::string, Good>& m) { std::string s; for (auto& x : m) s += x.first + show(x.second); return s; }),
          "{\"k\":{\"a\":1,\"text\":\"x\",\"v\":[1,2]}}", "{\"l\":{\"a\":2}}", "k1x22;l2x22;" },
    };
    return all;
}

const std::vector<Action>& bads()
{
    auto one = [] (int64_t a) { return VF_STR(a); };
    static const std::vector<Action> all = {
        action<Dup>("Dup", nullptr, [] (const Dup& x) { return VF_STR(x.a << x.b << x.c); }, { "shared", "c15j::Dup" }),
        action<DupName>("DupName", nullptr, [] (const DupName& x) { return VF_STR(x.a << x.b); }, { "a", "c15j::DupName" }),
        action<NoFn>("NoFn", nullptr, [=] (const NoFn& x) { return one(x.a); }, { "missing", "c15j::NoFn" }),
        action<WrongFn>("WrongFn", nullptr, [=] (const WrongFn& x) { return one(x.a); }, {}),
        action<WrongTrait>("WrongTrait", nullptr, [=] (const WrongTrait& x) { return VF_STR(x.a << x.b); }, { "std::string", "reflect::json::Traits" }),
        action<NoElement>("NoElement", nullptr, [=] (const NoElement& x) { return one(x.a); }, { "valueType" }),
        action<HasDup>("HasDup", nullptr, [] (const HasDup& x) { return VF_STR(show(x.g) << x.d.a << x.d.b << x.d.c << x.z); }, { "shared", "c15j::Dup" }),
        action<PtrDup>("null PtrDup", nullptr, [] (const PtrDup& x) { return VF_STR(x.a << !!x.p << show(x.g)); }, { "a", "c15j::DupName" }),
        action<PtrDup>("PtrDup", [] (PtrDup& x) { x.p.reset(new DupName); }, [] (const PtrDup& x) { return VF_STR(x.a << !!x.p << x.p->b << show(x.g)); }, { "a", "c15j::DupName" }),
        action<std::shared_ptr<Dup> >("shared_ptr<Dup>", [] (std::shared_ptr<Dup>& x) { x.reset(new Dup); }, [] (const std::shared_ptr<Dup>& x) { return VF_STR(!!x << x->a << x->c); }, { "shared" }),
        action<std::vector<Dup> >("vector<Dup>", [] (std::vector<Dup>& x) { x.resize(2); }, [] (const std::vector<Dup>& x) { return VF_STR(x.size() << x[1].b); }, { "shared" }),
        action<std::vector<std::shared_ptr<WrongTrait> > >("vector<shared_ptr<WrongTrait>>", [] (std::vector<std::shared_ptr<WrongTrait> >& x) { x.emplace_back(new WrongTrait); }, [] (const std::vector<std::shared_ptr<WrongTrait> >& x) { return VF_STR(x.size() << x[0]->b); }),
        action<std::map<std::string, NoFn> >("map<NoFn>", [] (std::map<std::string, NoFn>& x) { x["k"]; }, [] (const std::map<std::string, NoFn>& x) { return VF_STR(x.size() << x.at("k").a); }, { "missing" }),
        action<Cyc1>("Cyc1", [] (Cyc1& x) { x.n.reset(new Cyc2); }, [] (const Cyc1& x) { return VF_STR(x.v << !!x.n << !!x.n->n); }, { "missing" }),
        action<Cyc2>("Cyc2", [] (Cyc2& x) { x.n.reset(new Cyc1); }, [] (const Cyc2& x) { return VF_STR(x.x.a << x.n->v << !!x.n->n); }, { "missing" }),
        action<HasAll>("HasAll", [] (HasAll& x) { x.w.resize(1); x.m["q"]; }, [] (const HasAll& x) { return VF_STR(show(x.n) << x.w.size() << x.e.a << x.m.size() << x.z); }),
    };
    return all;
}

void history(Rng& r)
{
    static const std::vector<std::string> docs = { "{}", "{\"shared\":5,\"a\":7,\"b\":8,\"z\":1}", "{\"d\":{\"a\":7,\"shared\":9},\"z\":4,\"g\":{\"a\":9}}", "null",
        "[{\"a\":5}]", "{\"p\":{\"b\":4},\"a\":9}", "{\"k\":{\"a\":7}}", "{\"n\":{\"n\":null,\"v\":6},\"v\":5}", "5", "[]", "", "{" };
    std::string path;
    std::map<std::string, int> refused;
    int steps = r.range(4, 24);
    for (int i = 0; i < steps; ++i) {
        bool print = r.chance(50);
        std::string out, msg;
        custom = 0;
        if (r.chance(30)) {
            auto& g = r.pick(goods());
            describe(path + " then " + (print ? "print " : "read ") + g.act.name);
            bool raised = raises([&] { g.act.run(print, out, g.in); }, &msg);
            VF_CHECK(!raised, "json-usable", "refused: " << msg);
            VF_EQ(out, print ? g.printed : g.read, "json-usable", "result");
            path += VF_STR((print ? " +p " : " +r ") << g.act.name);
            event("JSON uses");
            continue;
        }
        auto& b = r.pick(bads());
        const std::string& doc = r.pick(docs);
        describe(path + " then " + (print ? "print " : "read ") + b.name + " from " + doc);
        bool raised = raises([&] { b.run(print, out, doc); }, &msg);
        VF_CHECK(raised, "json-unreported", "nothing was reported, " << (print ? "printed " : "read ") << out);
        VF_EQ(custom, 0, "json-user-code", "custom functions that ran");
        for (auto& n : b.named) VF_CHECK(msg.find(n) != std::string::npos, "json-message", "<" << n << "> isn't named in <" << msg << ">");
        path += VF_STR((print ? " -p " : " -r ") << b.name);
        event("JSON misuses");
        if (refused[VF_STR(print << b.name)]++) event("JSON misuses repeated");
    }
    distinct(path);
    sample(path);
    event("JSON histories");
}

void run(uint64_t, Rng& r)
{
    forked("json", [&] { history(r); });
}

} // namespace

const vf::Harness harness = { "c15j", run, nullptr, nullptr };
