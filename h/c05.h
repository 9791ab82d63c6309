// C05: what reflected calls hand over. Shared by its units.
#pragma once

#include "model.h"

namespace v5 {

using namespace vt;
using namespace vm;
using namespace vf;
using reflect::Value;
using reflect::Function;

// How to make, read and change objects of each type.
template<typename T> struct K;
template<> struct K<int>
{
    static int make(int id) { return id; }
    static long val(const int& x) { return x; }
    static void bump(int& x) { x += 1000; }
    static bool moved(const int&) { return false; }
};
template<> struct K<std::string>
{
    static std::string make(int id) { return "a string too long to be kept inline " + std::to_string(id); }
    static long val(const std::string& x) { return x.empty() ? -1 : atol(x.c_str() + 36); }
    static void bump(std::string& x) { x = make(val(x) + 1000); }
    static bool moved(const std::string& x) { return x.empty(); }
};
template<typename T> struct KObj
{
    static T make(int id) { return T(id); }
    static long val(const T& x) { x.t.check(); return x.v; }
    static void bump(T& x) { x.v += 1000; }
    static bool moved(const T& x) { return x.t.moved(); }
};
template<> struct K<A> : KObj<A> {};
template<> struct K<B> : KObj<B> {};
template<> struct K<C> : KObj<C> {};
template<> struct K<U> : KObj<U> {};
template<> struct K<Cv> : KObj<Cv> {};
template<> struct K<NC> : KObj<NC> {};
template<> struct K<NM>
{
    static long val(const NM& x) { x.t.check(); return x.v; }
    static void bump(NM& x) { x.v += 1000; }
    static bool moved(const NM&) { return false; }
};
// Pointees are never freed.
template<typename T> struct K<T*>
{
    static T* make(int id) { static std::map<int, T*> m; if (!m[id]) m[id] = new T(id); return m[id]; }
    static long val(T* const& x) { return x ? x->v : -1; }
    static void bump(T*& x) { x = make(val(x) + 1000); }
    static bool moved(T* const&) { return false; }
};
template<typename T> struct K<std::shared_ptr<T> >
{
    static std::shared_ptr<T> make(int id) { return std::make_shared<T>(id); }
    static long val(const std::shared_ptr<T>& x) { return x ? x->v : -1; }
    static void bump(std::shared_ptr<T>& x) { x->v += 1000; }
    static bool moved(const std::shared_ptr<T>& x) { return !x; }
};

// What the callee saw.
struct Seen
{
    int runs = 0;
    const void* addr = nullptr;
    long val = 0;
    bool moved = false;
    const void* host = nullptr;
    int hostId = 0;
    int state = 0;
    void reset() { *this = Seen(); }
};
extern Seen seen;

template<typename T> void see(const T& x)
{
    seen.runs++;
    seen.addr = &x;
    seen.moved = K<T>::moved(x);
    seen.val = seen.moved ? -2 : K<T>::val(x);
}

// Does to the parameter what a callee may do.
template<typename P> struct Touch;
template<typename T> struct Touch { static void go(T& x) { K<T>::bump(x); } };
template<typename T> struct Touch<T&> { static void go(T& x) { K<T>::bump(x); } };
template<typename T> struct Touch<const T&> { static void go(const T&) {} };
template<typename T> struct Touch<T&&> { static void go(T& x) { T stolen(std::move(x)); (void) stolen; } };

template<typename P> int observe(typename std::remove_reference<P>::type& p)
{
    typedef typename std::decay<P>::type T;
    see<T>(p);
    Touch<P>::go(p);
    return 7000 + seen.runs;
}

struct Host
{
    Track t;
    int id;
    explicit Host(int id = 0) : id(id) {}
    template<typename P> int m(P p) { t.check(); seen.host = this; seen.hostId = id; id++; return observe<P>(p); }
    template<typename P> int cm(P p) const { t.check(); seen.host = this; seen.hostId = id; return observe<P>(p); }
};

template<typename P> int freeFn(P p) { return observe<P>(p); }

template<typename P> struct Functor
{
    int n;
    Track t;
    explicit Functor(int n) : n(n) {}
    int operator()(P p) { t.check(); seen.state = ++n; return observe<P>(p); }
};
template<typename P> struct ConstFunctor
{
    int n;
    explicit ConstFunctor(int n) : n(n) {}
    int operator()(P p) const { seen.state = n; return observe<P>(p); }
};

enum { CallableKinds = 6 };

struct Callable
{
    int kind;
    std::unique_ptr<Function> fn;   // kinds 0..3
    int state = 0;
    Host host;
    const Host chost;
    Callable() : host(10), chost(20) {}

    template<typename P> void make(int k, int st)
    {
        kind = k;
        state = st;
        const char* n = "probe";
        switch (k) {
        case 0: fn.reset(new Function(n, &freeFn<P>)); break;
        case 1: fn.reset(new Function(n, [st] (P p) -> int { seen.state = st; return observe<P>(p); })); break;
        case 2: fn.reset(new Function(n, Functor<P>(st))); break;
        case 3: fn.reset(new Function(n, ConstFunctor<P>(st))); break;
        case 4: fn.reset(new Function(n, &Host::m<P>)); break;
        case 5: fn.reset(new Function(n, &Host::cm<P>)); break;
        }
    }
    // hostWay: how the object of methods is handed over.
    template<typename Ret, typename X> Ret call(int hostWay, X&& x)
    {
        switch (kind) {
        case 4:
            if (hostWay % 3 == 0) return fn->call<Ret>(host, std::forward<X>(x));
            return fn->call<Ret>(Value(host), std::forward<X>(x));
        case 5:
            if (hostWay % 4 == 0) return fn->call<Ret>(host, std::forward<X>(x));
            if (hostWay % 4 == 1) return fn->call<Ret>(Value(host), std::forward<X>(x));
            return fn->call<Ret>(Value(host).toConst(), std::forward<X>(x));
        default: return fn->call<Ret>(std::forward<X>(x));
        }
    }
    void checkRan(bool first)
    {
        event("calls that ran");
        VF_EQ(seen.runs, 1, "runs", "times the callee ran");
        if (kind == 1 || kind == 3) VF_EQ(seen.state, state, "functor", "captured state");
        if (kind == 2) VF_EQ(seen.state, state + 1, "functor", "functor state");
        if (kind >= 4) {
            VF_CHECK(seen.host == &host, "this", "method ran on another object");
            VF_EQ(host.id, kind == 4 ? 11 : 10, "this", "method's object");
        }
        (void) first;
    }
};


template<typename S, typename P> struct OneArg
{
    typedef typename std::decay<P>::type T;

    static void check(Callable& c, const Arg& arg, S& x, int id, const std::function<void()>& call, bool same = true)
    {
        Arg param = declared<P>();
        Match m = passing(arg, param);
        describe(VF_STR("callable kind " << c.kind << " with parameter " << param.print() << " given " << arg.print()));
        seen.reset();
        calls().clear();
        Track::Counts before = Track::counts;
        std::string what;
        bool raised = raises(call, &what);
        Track::Counts after = Track::counts;
        if (m == Match::None) {
            trivial();
            event("calls refused");
            VF_CHECK(raised, "accepted", "the call was accepted");
            VF_CHECK(!seen.runs && calls().empty(), "ran-on-error", "user code ran");
            VF_CHECK(!K<S>::moved(x) && K<S>::val(x) == id, "argument", "the argument was changed");
            return;
        }
        distinct(VF_STR(c.kind << param.print() << arg.print() << (x_owned ? "o" : "")));
        VF_CHECK(!raised, "refused", "the call was refused: " << what);
        c.checkRan(true);
        bool conv = converts(arg.t, param.t);
        VF_EQ(calls().size(), size_t(conv), "conversions", "conversions that ran");
        VF_CHECK(!seen.moved, "argument", "the callee got an emptied object");
        VF_EQ(seen.val, long(id), "argument", "value received");
        if (param.r == RefType::LValue && same) {
            VF_CHECK(seen.addr == &x, "identity", "the callee got another object");
            VF_EQ(after.copy + after.move, before.copy + before.move, "copies", "objects made to pass a reference");
            VF_EQ(K<S>::val(x), long(id + (param.c ? 0 : 1000)), "argument", "argument afterwards");
        }
        else {
            VF_CHECK(param.r != RefType::Copy || seen.addr != &x, "identity", "a by-value parameter is the caller's object");
            if (same && (arg.r != RefType::RValue || arg.c || conv)) {
                VF_CHECK(!K<S>::moved(x), "argument", "the argument was emptied");
                VF_EQ(K<S>::val(x), long(id + (param.r != RefType::LValue && isShared() ? 1000 : 0)), "argument", "argument afterwards");
            }
        }
    }
    // The pointee of a shared pointer passed by value is shared, of course.
    template<typename Q> struct Shared { static const bool value = false; };
    template<typename Q> struct Shared<std::shared_ptr<Q> > { static const bool value = true; };
    static bool isShared() { return Shared<T>::value && !std::is_rvalue_reference<P>::value; }
    static bool x_owned;

    static void all(int kind, Rng& r)
    {
        const int no = No<S>::value;
        auto fresh = [&] (const std::function<void(Callable&, int)>& go) {
            Callable c;
            c.template make<P>(kind, r.below(1000));
            go(c, 1 + r.below(900));
        };
        x_owned = false;
        int way = r.below(12);
        // plain arguments
        fresh([&] (Callable& c, int id) { S x = K<S>::make(id); check(c, Arg(no, RefType::LValue), x, id, [&] { ret(c.template call<int>(way, x)); }); });
        fresh([&] (Callable& c, int id) { S x = K<S>::make(id); const S& y = x; check(c, Arg(no, RefType::LValue, true), x, id, [&] { ret(c.template call<int>(way, y)); }); });
        fresh([&] (Callable& c, int id) { S x = K<S>::make(id); check(c, Arg(no, RefType::RValue), x, id, [&] { ret(c.template call<int>(way, std::move(x))); }, false); });
        // opaque values that refer
        for (int way2 = 0; way2 < 4; ++way2) {
            fresh([&] (Callable& c, int id) { S x = K<S>::make(id); Value v(x); opaque(c, v, x, id, r, way); });
            fresh([&] (Callable& c, int id) { S x = K<S>::make(id); const S& y = x; Value v(y); opaque(c, v, x, id, r, way); });
            fresh([&] (Callable& c, int id) { S x = K<S>::make(id); Value v = Value(x).rvalue(); opaque(c, v, x, id, r, way); });
            fresh([&] (Callable& c, int id) { S x = K<S>::make(id); Value v = Value(x).toConst(); opaque(c, v, x, id, r, way); });
        }
        // opaque values that own
        x_owned = true;
        fresh([&] (Callable& c, int id) { Value v(K<S>::make(id)); opaque(c, v, *static_cast<S*>(v.value()), id, r, way); });
        fresh([&] (Callable& c, int id) { Value o(K<S>::make(id)); Value v = o.rvalue(); opaque(c, v, *static_cast<S*>(o.value()), id, r, way); });
        fresh([&] (Callable& c, int id) { Value o(K<S>::make(id)); Value v = o.toConst(); opaque(c, v, *static_cast<S*>(o.value()), id, r, way); });
        x_owned = false;
    }

    static void ret(int v) { VF_EQ(v, 7001, "result", "result of the call"); }

    static void opaque(Callable& c, Value& v, S& x, int id, Rng& r, int way)
    {
        Arg a = of(v);
        Value keep = v; // the very object stays reachable.
        switch (r.below(4)) {
        case 0: check(c, a, x, id, [&] { c.template call<void>(way, v); }); break;
        case 1: check(c, a, x, id, [&] { ret(c.template call<int>(way, v)); }); break;
        case 2: check(c, a, x, id, [&] {
                    const Value& cvr = v;
                    Value res = c.template call<Value>(way, cvr);
                    VF_CHECK(res.isStored() && !res.isConst(), "result", "a value result isn't owned");
                    ret(res.get<int>());
                });
            break;
        case 3: check(c, a, x, id, [&] { ret(c.template call<int>(way, std::move(v))); }); break;
        }
    }
};
template<typename S, typename P> bool OneArg<S, P>::x_owned = false;

typedef void (*Case)(int kind, Rng& r);
template<typename P> void cases(std::vector<Case>&) {}
template<typename P, typename S, typename... R> void cases(std::vector<Case>& out)
{
    out.push_back(&OneArg<S, P>::all);
    cases<P, R...>(out);
}
template<typename T, typename... S> void casesOf(std::vector<Case>& out)
{
    cases<T, S...>(out);
    cases<T&, S...>(out);
    cases<const T&, S...>(out);
    cases<T&&, S...>(out);
}

void cases1(std::vector<Case>&);
void cases2(std::vector<Case>&);
void cases3(std::vector<Case>&);
void orders(Rng& r);      // several parameters
void results(Rng& r);     // results
void special(Rng& r);     // constructors, methods, state, recursion, exceptions

} // namespace v5

reflectTypeDecl(v5::Host)
