// C23: the same operations over memory and stack filled with different garbage give the same results.
#include "jtops.h"
#include "types.h"
#include "model.h"
#include <sys/mman.h>
#include <new>
#include <cstdlib>

using reflect::Type;
using reflect::Value;
using reflect::Argument;
using reflect::RefType;
namespace json = reflect::json;

// Nothing but what the compiler makes: made by default its members are zero.
namespace c23 {
struct Inner { short a; void* p; };
struct Pod { int i; double d; bool b; char c; const char* s; Inner in; long more[9]; };
struct Mixed { std::string s; int i; std::vector<int> v; bool b; };
}
reflectTypeDecl(c23::Inner)
reflectTypeDecl(c23::Pod)
reflectTypeDecl(c23::Mixed)
reflectTypeImpl(c23::Inner) { reflectPlumbing(); reflectAllocPlumbing(); reflectField(a); }
reflectTypeImpl(c23::Pod) { reflectPlumbing(); reflectAllocPlumbing(); reflectField(i); reflectField(d); reflectField(b); reflectField(c); reflectField(in); }
reflectTypeImpl(c23::Mixed) { reflectPlumbing(); reflectAllocPlumbing(); reflectField(s); reflectField(i); reflectField(b); }

namespace {
volatile int fill = -1;     // what fresh memory holds.
char* shared = nullptr;     // what a child found.
const size_t SharedSize = 4 << 20;
}

// All memory is handed out full of garbage, and full of it again once released.
void* operator new(size_t n)
{
    size_t* p = static_cast<size_t*>(malloc(n + 16));
    if (!p) throw std::bad_alloc();
    *p = n;
    if (fill >= 0) memset(p + 2, fill, n);
    return p + 2;
}
void operator delete(void* m) noexcept
{
    if (!m) return;
    size_t* p = static_cast<size_t*>(m) - 2;
    if (fill >= 0) memset(m, fill ^ 0x11, *p);
    free(p);
}
void operator delete(void* m, size_t) noexcept { operator delete(m); }

namespace {

__attribute__((noinline)) void dirty()
{
    volatile char b[48 << 10];
    memset((char*) b, fill < 0 ? 0 : fill, sizeof b);
    asm volatile("" : : "r"(&b[0]) : "memory");
}

// An object made in garbage; never destroyed.
template<typename T, typename... Args> __attribute__((noinline)) T& made(Args&&... args)
{
    void* m = operator new(sizeof(T) + 64);
    dirty();
    return *new (m) T(std::forward<Args>(args)...);
}

typedef std::ostringstream Out;
std::string sorted(std::vector<std::string> v) { std::sort(v.begin(), v.end()); return vf::join(v); }

void show(Out& o, const Argument& a) { o << (a.type() ? a.type()->id() : "-") << int(a.refType()) << a.isConst() << a.isVoid() << a.isConstRef() << a.isTemporary() << a.isLValueRef() << ";"; }
void show(Out& o, const Value& v) { show(o, v.argument()); o << v.isVoid() << v.isStored() << v.isConst() << int(v.refType()) << (v.value() != nullptr) << ";"; }
void show(Out& o, const reflect::Function& f)
{
    o << f.name() << f.arguments() << reflect::signature(f);
    show(o, f.returnType());
    for (size_t i = 0; i < f.arguments(); ++i) show(o, f.argument(i));
}
void show(Out& o, const reflect::Overloads& f) { o << f.size() << (f.size() ? f.name() : "") << f.print() << sorted(f.traits()); for (size_t i = 0; i < f.size(); ++i) show(o, f[i]); }
void show(Out& o, const Type& t, bool deep = true)
{
    o << t.id() << (t.parent() ? t.parent()->id() : "-") << t.isPointer() << (t.isPointer() ? t.pointer() + t.pointee()->id() : "-") << sorted(t.fields()) << sorted(t.functions()) << sorted(t.traits()) << t.isCopiable() << t.isMovable();
    if (!deep) return;
    for (auto& f : t.fields()) { const auto& x = t.field(f); o << x.name() << x.offset() << x.print() << sorted(x.traits()); show(o, x.argument()); }
    for (auto& f : t.functions()) show(o, t.function(f));
}
template<typename Fn> void attempt(Out& o, const Fn& fn)
{
    dirty();
    try { fn(); o << "ok;"; }
    catch (const reflect::Error& e) { std::string w = e.what(); o << w.substr(w.find(' ') + 1) << ";"; event("errors compared"); }
}

std::string content(const c23::Inner& x) { return VF_STR(x.a << "," << (x.p != nullptr)); }
std::string content(const c23::Pod& x) { std::ostringstream o; o << x.i << "," << x.d << "," << int(x.b) << "," << int(x.c) << "," << (x.s != nullptr) << "," << content(x.in); for (long m : x.more) o << "," << m; return o.str(); }
std::string content(const c23::Mixed& x) { return VF_STR(x.s << "," << x.i << "," << x.v.size() << "," << int(x.b)); }
template<typename T> std::string content(T* const& x) { return VF_STR((x != nullptr)); }
template<typename T> std::string content(const T& x) { return VF_STR(+x); }

template<typename T> __attribute__((noinline)) void byDefault(Out& o, bool alloc)
{
    const Type* t = reflect::type<T>();
    const std::string want = content(T());
    dirty();
    Value v = t->construct();
    VF_EQ(content(v.get<T>()), want, "default", "a default-made " + t->id());
    dirty();
    Value w = t->call<Value>(t->id());
    VF_EQ(content(w.get<T>()), want, "default", "a default-made " + t->id());
    dirty();
    T x = t->call<T>(t->id());
    VF_EQ(content(x), want, "default", "a default-made " + t->id());
    if (alloc) {
        dirty();
        std::unique_ptr<T> p(t->alloc().get<T*>());
        VF_EQ(content(*p), want, "default", "a default-allocated " + t->id());
        dirty();
        std::unique_ptr<T> q(t->call<T*>("new"));
        VF_EQ(content(*q), want, "default", "a default-allocated " + t->id());
    }
    o << content(v.get<T>()) << ";";
    event("default-made objects");
}
void allByDefault(Out& o)
{
    byDefault<c23::Pod>(o, true); byDefault<c23::Inner>(o, true); byDefault<c23::Mixed>(o, true);
    byDefault<bool>(o, false); byDefault<char>(o, false); byDefault<short>(o, false); byDefault<int>(o, false); byDefault<long>(o, false);
    byDefault<unsigned long>(o, false); byDefault<float>(o, false); byDefault<double>(o, false); byDefault<long double>(o, false);
    byDefault<int*>(o, false); byDefault<c23::Pod*>(o, false); byDefault<const char*>(o, false);
}

void fresh(Out& o, Rng& r) // things made by default.
{
    Argument& a = made<Argument>();
    show(o, a);
    Argument& b = made<Argument>();
    o << (a == b);
    Value& v = made<Value>();
    show(o, v);
    o << v.is("nothing");
    Value& w = made<Value>(v);
    show(o, w);
    Value& m = made<Value>(std::move(w));
    show(o, m); show(o, w);
    m = v; show(o, m);
    m = made<Value>(); show(o, m);
    m = Value(int(r.below(9))); show(o, m); o << m.get<int>();
    Value& n = made<Value>(m.toConst()); show(o, n);
    Value& k = made<Value>(m.rvalue()); show(o, k);
    attempt(o, [&] { m.call<void>("nothing"); });
    attempt(o, [&] { reflect::cast<std::string>(m); });
    reflect::Overloads& f = made<reflect::Overloads>();
    o << f.size() << sorted(f.traits()) << f.is("x") << f.test(Argument(), std::vector<Argument>());
    f.add(reflect::Function("f", [] (int x) { return x + 1; }));
    show(o, f);
    o << f.call<int>(3);
    reflect::Function& g = made<reflect::Function>("g", [] (const std::string& s, double d) { return d + s.size(); });
    show(o, g);
    reflect::Function& h = made<reflect::Function>(std::move(g));
    show(o, h);
    o << h.call<double>(std::string("abc"), 2.5) << int(h.testParams<double, std::string, double>(std::string(), 1.0));
    reflect::Field& x = made<reflect::Field>(reflect::Field::make<long>("x", 16));
    o << x.name() << x.offset() << x.print() << sorted(x.traits()); show(o, x.argument());
    Type& t = made<Type>("c23::made");
    show(o, t);
    o << t.isChildOf(reflect::type<int>()) << t.isParentOf(reflect::type<int>()) << t.hasConverter(reflect::type<int>()) << t.print();
    t.addField("x", reflect::Field::make<long>("x", 8));
    t.addFunction("f", [] (int i) { return i; });
    t.addTrait("t", 1);
    t.addTrait("u");
    show(o, t);
    attempt(o, [&] { t.field("y"); });
    attempt(o, [&] { t.construct(1); });
    reflect::Scope& s = made<reflect::Scope>("s");
    o << s.id() << s.name() << s.isGlobal() << (s.parent() != nullptr) << sorted(s.scopes()) << sorted(s.types()) << sorted(s.functions()) << s.hasScope("a") << s.hasType("b") << s.hasFunction("c") << s.print();
    s.addFunction("a::f", [] { return 5; });
    s.addType("a::T<int,a::b>");
    o << s.print() << s.call<int>("a::f") << sorted(s.types(true)) << s.scope("a")->isGlobal() << s.scope("a")->id();
    json::Token& k0 = made<json::Token>();
    o << k0.print() << int(k0.type()) << made<json::Token>(json::Token::EOS).print() << made<json::Token>(json::Token::Bool, true).print();
    json::Error& e = made<json::Error>();
    o << !!e << e.what();
    std::istringstream in("{\"a\": [1, 2.5, null]}");
    json::Reader& rd = made<json::Reader>(in);
    o << rd.ok() << rd.pos() << rd.line() << rd.allowComments() << rd.unescapeUnicode() << rd.validateUnicode() << rd.buffer().size() << !!rd.error();
    for (int i = 0; i < 12; ++i) o << rd.peekToken().print() << rd.nextToken().print() << rd.pos();
    std::ostringstream os;
    json::Writer& wr = made<json::Writer>(os, json::Writer::Options(r.below(16)));
    o << !!wr << wr.pretty() << wr.compact() << wr.escapeUnicode() << wr.validateUnicode() << !!wr.error();
    json::printObject(wr, std::vector<std::string>{ "a", "b" }, [&] (const std::string&) { json::printInt(wr, 4); });
    o << os.str();
    json::Traits& jt = made<json::Traits>();
    o << jt.skip << jt.alias << jt.parser << jt.printer;
    allByDefault(o);
    event("default objects", 14);
}

void descriptions(Out& o, Rng& r)
{
    std::vector<const Type*> ts = { reflect::type<vt::A>(), reflect::type<vt::C>(), reflect::type<vt::Cv>(), reflect::type<vt::NC>(), reflect::type<Node>(), reflect::type<Top>(), reflect::type<std::vector<int> >(),
        reflect::type<std::map<std::string, vt::B> >(), reflect::type<std::shared_ptr<vt::U> >(), reflect::type<std::unique_ptr<Node> >(), reflect::type<int*>(), reflect::type<vt::A**>(), reflect::type<std::string>(),
        reflect::type<double>(), reflect::type<bool>(), reflect::type<char>(), reflect::type<void>(), reflect::type<Value>(), reflect::type<const Type*>(), reflect::type<json::Traits>(), reflect::type<jt::W<jt::Own> >() };
    r.shuffle(ts);
    for (size_t i = 0; i < 8; ++i) { dirty(); show(o, *ts[i]); o << ts[i]->print(); event("descriptions"); }
    for (int i = 0; i < 20; ++i) {
        const Type* a = r.pick(ts); const Type* b = r.pick(ts);
        o << a->isChildOf(b) << a->isParentOf(b) << a->hasConverter(b);
        Argument x(a, RefType(r.below(3)), r.chance(50)), y(b, RefType(r.below(3)), r.chance(50));
        o << int(x.isConvertibleTo(y)) << x.print() << (x == y);
    }
}

void calls(Out& o, Rng& r)
{
    vt::A a(int(r.below(50))); vt::C c(3); vt::Cv cv(4); vt::NC nc(5); std::string s = "str"; int i = 7; vt::U u(9);
    std::vector<int> vec = { 1, 2 }; std::map<std::string, int> map; std::unique_ptr<vt::A> up(new vt::A(2)); std::shared_ptr<vt::A> sp(new vt::A(3));
    std::vector<Value> vs;
    vs.emplace_back(a); vs.emplace_back(c); vs.emplace_back(cv); vs.emplace_back(nc); vs.emplace_back(s); vs.emplace_back(i); vs.emplace_back(u);
    vs.emplace_back(vec); vs.emplace_back(map); vs.emplace_back(up); vs.emplace_back(sp); vs.emplace_back(vt::B(6)); vs.emplace_back(std::string("owned")); vs.emplace_back(2.5); vs.push_back(Value());
    static const char* fns[] = { "get", "set", "ref", "add", "self", "getw", "size", "push_back", "operator[]", "operator=", "operator*", "operator+", "reset", "cself", "count", "back", "nothing", "operator int()" };
    static const char* fields[] = { "v", "s", "w", "x", "nothing", "t" };
    for (int n = 0; n < 40; ++n) {
        dirty();
        Value& v = r.pick(vs);
        Value x = r.chance(20) && !v.isVoid() ? v.toConst() : v;
        int what = r.below(9), k = r.below(100);
        if (x.isVoid()) what = 8;
        o << n << ":";
        attempt(o, [&] {
            std::string fn = fns[r.below(18)], field = fields[r.below(6)];
            Value w = r.pick(vs);
            auto vv = [&] (Value res) { show(o, res); if (!res.isVoid() && res.type() == reflect::type<int>()) o << res.get<int>(); };
            switch (what) {
            case 0: vv(x.call<Value>(fn)); break;
            case 1: vv(x.call<Value>(fn, k)); break;
            case 2: vv(x.call<Value>(fn, w)); break;
            case 3: vv(x.field(field)); break;
            case 4: vv(x.copy()); break;
            case 5: o << reflect::cast<int>(x); break;
            case 6: o << reflect::cast<vt::A&>(x).v; break;
            case 7: x.assign(w); break;
            default: {
                Argument p(reflect::type<vt::A>(), RefType(k % 3), k % 2);
                if (!x.isVoid()) o << reflect::isCastable(x, p);
                show(o, x); show(o, Value(x));
                o << reflect::type<vt::B>()->construct(k).get<vt::B>().w;
            }
            }
        });
        event("calls");
    }
    o << a.v << c.x << s << i << vec.size() << map.size();
}

void flags(Rng&)
{
    // The members of traits made in all the ways there are.
    static const char* ways[] = { "Traits()", "skip()", "alias()", "custom()", "skip() | alias()" };
    for (int way = 0; way < 5; ++way) {
        unsigned char got[3][2];
        for (int k = 0; k < 3; ++k) {
            fill = k == 0 ? 0 : k == 1 ? 1 : 0xFF;
            dirty();
            void* m = operator new(sizeof(json::Traits));
            switch (way) {
            case 0: new (m) json::Traits(); break;
            case 1: new (m) json::Traits(json::skip()); break;
            case 2: new (m) json::Traits(json::alias("a")); break;
            case 3: new (m) json::Traits(json::custom("p", "q")); break;
            default: new (m) json::Traits(json::skip() | json::alias("b"));
            }
            memcpy(got[k], (char*) m + offsetof(json::Traits, skip), 1);
            memcpy(got[k] + 1, (char*) m + offsetof(json::Traits, skipEmpty), 1);
        }
        fill = -1;
        event("flags compared");
        VF_CHECK(got[0][0] == got[1][0] && got[1][0] == got[2][0], "traits-skip", "skip of json::" << ways[way] << " is whatever was there");
        if (got[0][1] != got[1][1] || got[1][1] != got[2][1]) fail("traits-skip-empty", VF_STR("skipEmpty of json::" << ways[way] << " is whatever was there"), false);
    }
}

std::string results(uint64_t seed, int kind)
{
    Rng r(seed);
    Out o;
    o << std::boolalpha;
    switch (kind) {
    case 0: fresh(o, r); break;
    case 1: descriptions(o, r); break;
    case 2: calls(o, r); break;
    default:
        for (int n = 0; n < 6; ++n) {
            Op op = { int(r.below(Kinds)), r.below(count()), r.next() };
            dirty();
            o << perform(op) << "\n";
            event("json operations");
        }
    }
    return o.str();
}

void run(uint64_t idx, Rng& r)
{
    if (idx % 200 == 0) forked("", [&] { flags(r); });
    int kind = r.below(8);
    kind = kind < 1 ? 0 : kind < 3 ? 1 : kind < 5 ? 2 : 3;
    uint64_t seed = r.next();
    static const int fills[] = { 0x00, 0xFF, 0x01, 0x5A };
    std::string first;
    for (int k = 0; k < 3; ++k) {
        int f = k < 2 ? fills[k] : fills[2 + r.below(2)];
        memset(shared, 0, 8);
        describe(VF_STR("kind " << kind << " seed " << seed << " memory filled with " << f));
        forked("", [&] {
            fill = f;
            std::string s = results(seed, kind);
            fill = -1;
            s.resize(std::min(s.size(), SharedSize - 16));
            *reinterpret_cast<uint64_t*>(shared) = s.size() + 1;
            memcpy(shared + 8, s.data(), s.size());
        });
        uint64_t n = *reinterpret_cast<uint64_t*>(shared);
        if (!n) return; // reported.
        std::string s(shared + 8, n - 1);
        event("results compared");
        event("bytes compared", s.size());
        if (k == 0) { first = s; distinct(s); continue; }
        if (s != first) {
            size_t at = 0;
            while (at < s.size() && at < first.size() && s[at] == first[at]) ++at;
            fail("result", VF_STR("results depend on what memory holds, at " << at << ": <" << quote(first.substr(at > 60 ? at - 60 : 0, 200)) << "> and <" << quote(s.substr(at > 60 ? at - 60 : 0, 200)) << ">"));
        }
    }
}

void init() { shared = static_cast<char*>(mmap(nullptr, SharedSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); if (shared == MAP_FAILED) { perror("mmap"); exit(3); } }

} // namespace

const vf::Harness harness = { "c23", run, init, nullptr };
