// C05: several parameters, constructors, methods, recursion, exceptions.
#include "c05.h"

namespace v5 {

// Objects made from another one: D is what is described, P what the constructor takes.
struct Made { static int runs; static const void* at; static int v; };
int Made::runs = 0; const void* Made::at = nullptr; int Made::v = 0;
template<int N, typename P> struct MadeOf
{
    int v = -1;
    MadeOf() {}
    MadeOf(P a) : v(a.v) { a.t.check(); Made::runs++; Made::at = &a; Made::v = a.v; A taken(std::forward<P>(a)); }
};
#define MADES(X) X(1, A&, A) X(3, A&, const A&) X(4, const A&, A) X(5, const A&, const A&) X(6, A&&, A) \
    X(7, A&&, A&&) X(8, A, A) X(9, A, const A&) X(10, A, A&&)
#define X(N, D, P) typedef MadeOf<N, P> Made##N;
MADES(X)
#undef X
} // namespace v5

#define X(N, D, P) reflectTypeDecl(v5::Made##N) reflectTypeImpl(v5::Made##N) { reflectPlumbing(); reflectCons(D); reflectField(v); }
using vt::A;
MADES(X)
#undef X

namespace v5 {
Seen seen;

namespace {

// Each parameter is recorded in order.
std::vector<std::string> got;
std::string str(int x) { return "int:" + std::to_string(x); }
std::string str(double x) { return VF_STR("double:" << x); }
std::string str(long x) { return "long:" + std::to_string(x); }
std::string str(bool x) { return x ? "true" : "false"; }
std::string str(const std::string& x) { return "str:" + x; }
std::string str(const A& x) { return "A:" + std::to_string(x.v); }
std::string str(A* x) { return VF_STR("ptr:" << x); }
void rec() {}
template<typename H, typename... R> void rec(const H& h, const R&... r) { got.push_back(str(h)); rec(r...); }

template<typename... P> std::string many(P... p) { rec(p...); return join(got); }

template<typename... P> void order(Rng& r, const typename std::decay<P>::type&... vals)
{
    std::vector<std::string> exp;
    got.clear();
    rec(vals...);
    exp = got;
    Function f("many", &many<P...>);
    // plain, then opaque.
    got.clear();
    std::string res = f.call<std::string>(typename std::decay<P>::type(vals)...);
    describe("order of " + join(exp));
    event("argument lists");
    distinct(VF_STR(sizeof...(P) << join(exp)));
    VF_EQ(join(got), join(exp), "order", "plain arguments");
    VF_EQ(res, join(exp), "order", "result");
    got.clear();
    Value v = f.call<Value>(Value(typename std::decay<P>::type(vals))...);
    VF_EQ(join(got), join(exp), "order", "opaque arguments");
    VF_EQ(v.get<std::string>(), join(exp), "order", "opaque result");
}

int digits(int a, int b, int c, int d, int e) { return a * 10000 + b * 1000 + c * 100 + d * 10 + e; }

struct Thrown { Track t; int id; };

struct Accumulator
{
    int sum = 0;
    int operator()(int x) { return sum += x; }
};

} // namespace

void orders(Rng& r)
{
    auto n = [&] { return int(r.range(-1000000, 1000000)); };
    auto s = [&] { return std::string(r.below(40), char('a' + r.below(26))); };
    A x(n()), y(n());
    switch (r.below(10)) {
    case 0: order<int, int>(r, n(), n()); break;
    case 1: order<int, int, int>(r, n(), n(), n()); break;
    case 2: order<std::string, int, std::string>(r, s(), n(), s()); break;
    case 3: order<const A&, const A&>(r, A(n()), A(n())); break;
    case 4: order<A, const A&, int, A>(r, A(n()), A(n()), n(), A(n())); break;
    case 5: order<double, int, bool, long>(r, n() / 7.0, n(), n() & 1, long(n()) * 1048576); break;
    case 6: order<const std::string&, const std::string&, std::string, const std::string&, int>(r, s(), s(), s(), s(), n()); break;
    case 7: order<A*, A*, int>(r, &x, &y, n()); break;
    case 8: order<int, A, std::string, double, const A&, long>(r, n(), A(n()), s(), n() / 3.0, A(n()), long(n()) * 77777); break;
    default: {
        Function f("digits", &digits);
        int a[5];
        for (auto& d : a) d = r.below(10);
        int exp = digits(a[0], a[1], a[2], a[3], a[4]);
        event("argument lists");
        distinct("d" + std::to_string(exp));
        VF_EQ(f.call<int>(a[0], a[1], a[2], a[3], a[4]), exp, "order", "five ints");
        VF_EQ(f.call<int>(Value(a[0]), a[1], Value(int(a[2])), std::move(a[3]), Value(a[4]).toConst()), exp, "order", "five ints, mixed");
    } }

    // the same object twice.
    static const void* p[2];
    Function two("two", +[] (A& a, const A& b) { p[0] = &a; p[1] = &b; a.v++; return b.v; });
    int v0 = x.v;
    VF_EQ(two.call<int>(x, x), v0 + 1, "alias", "the same object passed twice");
    VF_CHECK(p[0] == &x && p[1] == &x, "alias", "not the same object");
    VF_EQ(two.call<int>(Value(y), x), v0 + 1, "alias", "two objects");
    VF_CHECK(p[0] == &y && p[1] == &x, "alias", "arguments swapped");
}

// How the described parameter is passed on to the constructor.
template<typename T, typename D, typename P> void made(int id, const char* name)
{
    const bool lref = std::is_lvalue_reference<D>::value, rref = std::is_rvalue_reference<D>::value;
    const bool konst = std::is_const<typename std::remove_reference<D>::type>::value;
    const bool same = lref && std::is_reference<P>::value;
    const auto* type = reflect::type<T>();
    enum How { Plain, Child, Opaque, Owned, Const, OpaqueConst, Moved, OpaqueMoved, OwnedMoved, Last };
    for (int how = 0; how < Last; ++how) {
        describe(VF_STR("constructor " << name << " given an argument of kind " << how));
        A a(id + how); B b(id + how); const A c(id + how);
        Value owned { A(id + how) };
        const A* obj = how == Child ? &b : how == Const || how == OpaqueConst ? &c : how == Owned || how == OwnedMoved ? &owned.get<A>() : &a;
        const bool temporary = how >= Moved, readOnly = how == Const || how == OpaqueConst;
        const bool legal = lref ? konst || !(temporary || readOnly) : rref ? temporary : true;
        Made::runs = 0;
        Value v;
        bool raised = raises([&] {
            switch (how) {
            case Plain: v = type->construct(a); break;
            case Child: v = type->construct(b); break;
            case Opaque: v = type->construct(Value(a)); break;
            case Owned: v = type->construct(owned); break;
            case Const: v = type->construct(c); break;
            case OpaqueConst: v = type->construct(Value(c)); break;
            case Moved: v = type->construct(std::move(a)); break;
            case OpaqueMoved: v = type->construct(Value(a).rvalue()); break;
            default: v = type->construct(owned.rvalue()); break;
            }
        });
        VF_EQ(raised, !legal, "construct", "refused");
        VF_EQ(Made::runs, legal ? 1 : 0, "construct", "times run");
        event(legal ? "constructors described otherwise" : "constructors refused");
        if (!legal) { VF_CHECK(!obj->t.moved() && obj->v == id + how, "construct", "a refused argument was touched"); continue; }
        VF_CHECK(v.type() == type && v.isStored() && v.field<int>("v") == id + how && Made::v == id + how, "construct", "made from something else");
        if (how == Moved) continue; // the argument is kept by the call.
        if (same) VF_CHECK(Made::at == obj, "identity", "not the caller's object");
        else if (!lref || !std::is_reference<P>::value) VF_CHECK(Made::at != obj, "identity", "the caller's own object was handed over");
        if (rref) VF_CHECK(obj->t.moved(), "construct", "the argument wasn't moved");
        else if (lref || !temporary) VF_CHECK(!obj->t.moved() && obj->v == id + how && obj->s == "s" + std::to_string(id + how), "construct", "the caller's argument was moved out");
    }
    distinct(std::string("made") + name + std::to_string(id));
}

void special(Rng& r)
{
    int id = 1 + r.below(900);
    if (r.chance(10)) {
#define X(N, D, P) made<Made##N, D, P>(id, #D " for " #P);
        MADES(X)
#undef X
        return;
    }
    switch (r.below(10)) {
    case 0: { // constructors
        describe("constructors");
        Value v = reflect::type<A>()->construct(id, std::string("abc"));
        VF_CHECK(v.type() == reflect::type<A>() && v.isStored() && !v.isConst(), "construct", "what was constructed");
        VF_CHECK(v.get<A>() == A(id, "abc"), "construct", "constructed from two arguments");
        VF_CHECK(reflect::type<A>()->construct(id).get<A>() == A(id), "construct", "constructed from one argument");
        VF_CHECK(reflect::type<A>()->construct(Value(id)).get<A>() == A(id), "construct", "constructed from an opaque argument");
        VF_CHECK(reflect::type<A>()->construct().get<A>() == A(), "construct", "default constructed");
        A a(id);
        Value c = reflect::type<A>()->construct(a);
        VF_CHECK(c.value() != &a && c.get<A>() == a && !a.t.moved(), "construct", "copy constructed");
        Value m = reflect::type<A>()->construct(std::move(a));
        VF_CHECK(m.get<A>().v == id && a.t.moved() && !m.get<A>().t.moved(), "construct", "move constructed");
        { // moved or copied as the argument allows, wherever it is kept.
            A b(id); const A k(id);
            long copies = Track::counts.copy + Track::counts.copyAssign;
            Value n = reflect::type<A>()->construct(Value(b).rvalue());
            VF_CHECK(n.get<A>().v == id && b.t.moved(), "construct", "move constructed through a value");
            A d(id);
            std::unique_ptr<A> x(reflect::type<A>()->call<A*>("new", Value(d).rvalue()));
            VF_CHECK(x && x->v == id && d.t.moved(), "construct", "allocated by moving");
            A e(id), f(id + 1);
            Value(f).assign(Value(e).rvalue());
            VF_CHECK(f.v == id && e.t.moved() && !f.t.moved(), "construct", "assigned by moving");
            A g(id), h(id + 1);
            Value(h).assign(std::move(g));
            VF_CHECK(h.v == id && g.t.moved(), "construct", "assigned by moving");
            VF_EQ(Track::counts.copy + Track::counts.copyAssign, copies, "construct", "copies made of what was to be moved");
            Value y = reflect::type<A>()->construct(Value(k).rvalue());
            VF_CHECK(y.get<A>() == k && !k.t.moved(), "construct", "moved out of something constant");
            A i(id), j(id + 1);
            Value(j).assign(i);
            VF_CHECK(j == i && !i.t.moved(), "construct", "assigned by copying");
            event("moved and copied by the built-in functions");
        }
        std::unique_ptr<A> p(reflect::type<A>()->alloc().get<A*>());
        VF_CHECK(p && p->v == 0, "construct", "allocated");
        std::unique_ptr<A> q(reflect::type<A>()->call<A*>("new", m));
        VF_CHECK(q && *q == m.get<A>() && q.get() != m.value(), "construct", "allocated copy");
        event("constructions", 8);
        distinct("cons" + std::to_string(id));
        break;
    }
    case 1: { // methods on objects, children and opaque values
        describe("methods");
        A a(id); B b(id + 1); C c(id + 2);
        Value va(a), vb(b), vc(c), own(C(id + 3));
        VF_EQ(va.call<int>("get"), id, "method", "A::get");
        VF_EQ(vb.call<int>("get"), id + 1, "method", "B through A::get");
        VF_EQ(vc.call<int>("getw"), 2 * (id + 2), "method", "C through B::getw");
        VF_EQ(own.call<int>("get"), id + 3, "method", "owned C through A::get");
        vc.call<void>("set", id + 50);
        VF_EQ(c.v, id + 50, "method", "set on a C");
        VF_CHECK(&vc.call<A&>("self") == &c, "identity", "self of a C");
        VF_CHECK(&vc.call<const A&>("cself") == &c, "identity", "cself of a C");
        VF_CHECK(vb.call<Value>("self").value() == &b, "identity", "self of a B as a value");
        int& ref = va.call<int&>("ref");
        VF_CHECK(&ref == &a.v, "identity", "reference to a member");
        Value vr = va.call<Value>("ref");
        VF_CHECK(vr.value() == &a.v && !vr.isStored() && !vr.isConst(), "identity", "opaque reference to a member");
        vr.assign(id + 99);
        VF_EQ(a.v, id + 99, "identity", "write through the result");
        Value cr = va.call<Value>("cref");
        VF_CHECK(cr.value() == &a.v && cr.isConst(), "identity", "opaque const reference to a member");
        VF_EQ(va.call<int>("add", 3, 4), a.v + 9 + 28, "method", "add");
        VF_EQ(reflect::type<B>()->call<int>("add", b, 5, Value(6)), b.v + 15 + 42, "method", "add through the type");
        event("method calls", 14);
        distinct("meth" + std::to_string(id));
        break;
    }
    case 2: { // state of functors
        describe("functor state");
        Accumulator acc;
        Function f("acc", acc);
        int sum = 0;
        for (int i = 0; i < 10; ++i) {
            int x = r.range(-100, 100);
            sum += x;
            VF_EQ(i & 1 ? f.call<int>(x) : f.call<Value>(Value(x)).get<int>(), sum, "functor", "running sum");
        }
        VF_EQ(acc.sum, 0, "functor", "the functor given was touched");
        Function g(std::move(f));
        VF_EQ(g.call<int>(5), sum + 5, "functor", "sum after the function was moved");
        int total = 0;
        Function h("cap", [&total] (int x) { total += x; });
        h.call<void>(id);
        h.call<void>(Value(id));
        VF_EQ(total, 2 * id, "functor", "captured reference");
        event("functor calls", 13);
        distinct("functor" + std::to_string(sum));
        break;
    }
    case 3: { // recursion
        describe("recursion");
        static Function* fact = new Function("fib", +[] (int n) -> int {
            return n < 2 ? n : fact->call<int>(n - 1) + fact->call<Value>(Value(n - 2)).get<int>();
        });
        int n = r.below(11), a = 0, b = 1;
        for (int i = 0; i < n; ++i) { int t = a + b; a = b; b = t; }
        VF_EQ(fact->call<int>(n), a, "recursion", "fib");
        event("recursive calls");
        distinct("fib" + std::to_string(n));
        break;
    }
    case 4: { // exceptions of the callee come out, nothing is lost.
        describe("exceptions");
        long live = Track::live();
        {
            Function f("throws", +[] (A a, const A& b) -> A { if (b.v) throw Thrown{ Track(), a.v }; return a; });
            A x(id), y(1), z(0);
            bool thrown = false;
            try { f.call<A>(x, Value(y)); }
            catch (const Thrown& t) { thrown = t.id == id; }
            VF_CHECK(thrown, "exception", "the callee's exception didn't come out");
            VF_CHECK(x == A(id) && y == A(1), "exception", "the arguments were changed");
            VF_CHECK(f.call<A>(x, z) == x, "exception", "call after an exception");
        }
        VF_EQ(Track::live(), live, "exception", "objects alive");
        event("exceptions");
        distinct("exc" + std::to_string(id));
        break;
    }
    case 5: { // Value parameters get what was given, unchecked and unconverted.
        describe("opaque parameters");
        static Value last;
        Function f("v", +[] (Value v) { last = v; });
        A a(id); const A ca(id);
        f.call<void>(a);
        VF_CHECK(last.value() == &a && !last.isConst() && !last.isStored(), "opaque", "lvalue");
        f.call<void>(ca);
        VF_CHECK(last.value() == &ca && last.isConst(), "opaque", "const lvalue");
        f.call<void>(A(id));
        VF_CHECK(last.isStored() && last.get<A>() == A(id), "opaque", "temporary");
        Value own(A(id + 1));
        f.call<void>(own);
        VF_CHECK(last.value() == own.value() && last.isStored(), "opaque", "shared value");
        Function g("vr", +[] (const Value& v) { last = v; return v.isVoid(); });
        VF_EQ(g.call<bool>(Value()), true, "opaque", "void value");
        VF_EQ(g.call<bool>(own.toConst()), false, "opaque", "const value");
        VF_CHECK(last.isConst() && last.value() == own.value(), "opaque", "const value");
        Function h("vm", +[] (Value& v) { v = Value(A(5)); });
        Value target(a);
        h.call<void>(target);
        (void) target;
        last = Value();
        event("opaque parameters", 7);
        distinct("opq" + std::to_string(id));
        break;
    }
    case 6: { // through scopes
        describe("scope functions");
        static reflect::Scope* sc = [] {
            auto* s = new reflect::Scope("calls");
            s->addFunction("x::y::add", +[] (int a, int b) { return a * 100 + b; });
            s->addFunction("x::bump", +[] (A& a) -> A& { a.v++; return a; });
            return s;
        }();
        VF_EQ(sc->call<int>("x::y::add", id, 7), id * 100 + 7, "scope", "add");
        A a(id);
        VF_CHECK(&sc->call<A&>("x::bump", a) == &a && a.v == id + 1, "scope", "bump");
        VF_CHECK(sc->scope("x")->call<Value>("bump", Value(a)).value() == &a && a.v == id + 2, "scope", "bump");
        event("scope calls", 3);
        distinct("scope" + std::to_string(id));
        break;
    }
    case 7: { // objects that can't be copied go through by reference and by move.
        describe("uncopiable objects");
        Function take("take", +[] (NC&& n) { NC m(std::move(n)); return m.v; });
        Function back("back", +[] (int v) { return NC(v); });
        Function ref("ref", +[] (NM& n) -> NM& { n.v++; return n; });
        NC nc(id);
        VF_EQ(take.call<int>(std::move(nc)), id, "uncopiable", "moved in");
        Value v = back.call<Value>(id);
        VF_CHECK(v.type() == reflect::type<NC>() && v.get<NC>().v == id && v.isStored(), "uncopiable", "moved out");
        VF_EQ(take.call<int>(v.rvalue()), id, "uncopiable", "moved through a value");
        NM nm(id);
        VF_CHECK(&ref.call<NM&>(nm) == &nm && nm.v == id + 1, "uncopiable", "passed by reference");
        VF_CHECK(&ref.call<NM&>(Value(nm)) == &nm && nm.v == id + 2, "uncopiable", "passed by opaque reference");
        Value res = back.call<Value>(id + 3);
        NC out = reflect::cast<NC&&>(res);
        VF_EQ(out.v, id + 3, "uncopiable", "extracted");
        std::unique_ptr<A> up(new A(id));
        Function eat("eat", +[] (std::unique_ptr<A>&& p) { std::unique_ptr<A> q(std::move(p)); return q ? q->v : -1; });
        VF_EQ(eat.call<int>(std::move(up)), id, "uncopiable", "unique_ptr given up");
        event("uncopiable objects", 7);
        distinct("unc" + std::to_string(id));
        break;
    }
    case 8: { // arrays are passed as pointers to their first element.
        describe("arrays");
        Function first("first", +[] (const char* s) { return s; });
        Function text("text", +[] (const char* s, int n) { return std::string(s, n); });
        Function at("at", +[] (int* p, int i) -> int& { return p[i]; });
        Function sum("sum", +[] (const int* p, size_t n) { long x = 0; for (size_t i = 0; i < n; ++i) x += p[i]; return x; });
        Function held("held", +[] (const Value& v) { return v; });
        Function repoint("repoint", +[] (char*& p) { p++; });
        VF_EQ(text.call<std::string>("abcdefghijk", 11), "abcdefghijk", "array", "literal");
        VF_EQ(text.call<std::string>("ab", 2), "ab", "array", "short literal");
        VF_EQ(text.call<Value>("some more text", Value(4)).get<std::string>(), "some", "array", "literal and a value");
        char buf[32];
        size_t len = 1 + r.below(31);
        for (size_t i = 0; i < sizeof buf; ++i) buf[i] = 'a' + r.below(26);
        VF_EQ(text.call<std::string>(buf, int(len)), std::string(buf, len), "array", "characters");
        VF_CHECK(first.call<const char*>(buf) == buf, "array", "pointer to the characters");
        VF_CHECK(first.call<Value>(buf).get<char*>() == buf, "array", "opaque pointer to the characters");
        const char cbuf[] = "constant";
        VF_CHECK(first.call<const char*>(cbuf) == cbuf, "array", "pointer to constant characters");
        int ints[9]; long exp = 0;
        for (int& x : ints) { x = r.range(-1000, 1000); exp += x; }
        const int cints[3] = { id, 2 * id, -id };
        VF_EQ(sum.call<long>(ints, size_t(9)), exp, "array", "ints");
        VF_EQ(sum.call<long>(cints, size_t(3)), 2L * id, "array", "constant ints");
        int i = r.below(9);
        VF_CHECK(&at.call<int&>(ints, int(i)) == &ints[i], "array", "element of the array");
        at.call<Value>(ints, int(i)).assign(id);
        VF_EQ(ints[i], id, "array", "written through the result");
        // opaque.
        Value v(buf), lit("literal"), vi(ints), got;
        VF_CHECK(v.type() == reflect::type<char*>() && v.isStored() && v.get<char*>() == buf, "array", "value of an array");
        VF_EQ(text.call<std::string>(lit, 7), "literal", "array", "value of a literal");
        VF_CHECK(first.call<const char*>(v) == buf, "array", "value of characters as an argument");
        VF_CHECK(&at.call<int&>(vi, 0) == ints, "array", "value of ints as an argument");
        got = held.call<Value>(buf);
        VF_CHECK(got.get<char*>() == buf && got.isStored(), "array", "opaque parameter");
        VF_EQ(std::string(held.call<Value>("opaque text").get<const char*>()), "opaque text", "array", "literal as an opaque parameter");
        VF_CHECK(raises([&] { repoint.call<void>(buf); }), "array", "an array was bound to a reference to a pointer");
        char* p = buf;
        repoint.call<void>(p);
        VF_CHECK(p == buf + 1, "array", "pointer through a reference");
        event("array arguments", 18);
        distinct("arr" + std::to_string(id) + std::to_string(len));
        break;
    }
    default: { // a reference to what an owning result held is gone with it.
        forked("", [id] {
            describe("reference out of an owning opaque result");
            Function f("own", +[] (int v) { return Value(A(v)); });
            std::string what;
            const A* p = nullptr;
            bool raised = raises([&] { p = &f.call<A&>(id); }, &what);
            // Either refused, or the object must still be there.
            event("references out of owning results");
            if (!raised && !Track::ledger().count(&p->t))
                fail("ref-from-owned-value-result", "the object referred to is gone");
        });
        trivial();
        break;
    } }
}

} // namespace v5

reflectTypeImpl(v5::Host) {}

namespace {
using namespace v5;
std::vector<Case> all;
void init() { cases1(all); cases2(all); cases3(all); }
void run(uint64_t idx, Rng& r)
{
    int what = idx % 4;
    uint64_t n = idx / 4;
    if (what < 2) {
        n = n * 2 + what;
        all[n % all.size()]((n / all.size()) % CallableKinds, r);
    }
    else if (what == 2) for (int i = 0; i < 5; ++i) { orders(r); special(r); }
    else for (int i = 0; i < 5; ++i) results(r);
}
} // namespace
const vf::Harness harness = { "c05", &run, &init, nullptr };
