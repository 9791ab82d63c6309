// C04: overload resolution against the model; order of description; rejected additions.
#include "pool.h"

using namespace vt;
using namespace vm;
using namespace vf;
using reflect::Value;
using reflect::Overloads;
using reflect::Function;

namespace {

struct Outcome
{
    enum Kind { Ran, Ambiguous, Missing } kind;
    size_t which;      // index in the set.
    size_t exacts;
    size_t partials;
};

// What the call of args for ret has to do with a set described in this order.
Outcome predict(const std::vector<const Sig*>& set, const Sig& as)
{
    Outcome o = { Outcome::Missing, 0, 0, 0 };
    size_t firstExact = 0, firstPartial = 0;
    for (size_t i = 0; i < set.size(); ++i) {
        Match m = calling(as, *set[i]);
        if (m == Match::Exact && !o.exacts++) firstExact = i;
        if (m == Match::Partial && !o.partials++) firstPartial = i;
    }
    if (o.exacts) { o.kind = Outcome::Ran; o.which = firstExact; }
    else if (o.partials == 1) { o.kind = Outcome::Ran; o.which = firstPartial; }
    else if (o.partials) o.kind = Outcome::Ambiguous;
    return o;
}

// The same set reached in three ways.
struct Set
{
    int way;
    Overloads ov;
    std::unique_ptr<reflect::Type> type;
    reflect::Scope* scope = nullptr; // scopes live forever.
    std::vector<const vp::Entry*> members;
    std::vector<const Sig*> sigs;

    explicit Set(int way) : way(way)
    {
        if (way == 1) type.reset(new reflect::Type("Runtime"));
        if (way == 2) {
            static auto* keep = new std::vector<reflect::Scope*>;
            keep->push_back(scope = new reflect::Scope("sc"));
        }
    }
    const Overloads& get() const
    {
        const reflect::Type* t = type.get();
        const reflect::Scope* s = scope;
        return way == 0 ? ov : way == 1 ? t->function("fn") : s->function("in::fn");
    }
    bool empty() const { return members.empty(); }

    void add(const vp::Entry& e)
    {
        bool reject = false;
        for (auto* s : sigs) reject = reject || calling(*s, e.sig) == Match::Exact;

        std::string before = empty() ? "" : get().print();
        calls().clear();
        std::string what;
        bool raised = raises([&] {
            if (way == 0) ov.add(e.make("fn"));
            else if (way == 1) type->addFunction("fn", e.make("fn"));
            else scope->addFunction("in::fn", e.make("fn"));
        }, &what);
        event(raised ? "additions rejected" : "additions accepted");
        VF_EQ(raised, reject, "add", "adding " + e.text + " to " + describeSet());
        VF_CHECK(calls().empty(), "add", "adding ran something");
        if (raised) {
            VF_EQ(get().print(), before, "add", "set after a rejected addition");
            return;
        }
        members.push_back(&e);
        sigs.push_back(&e.sig);
        VF_EQ(get().size(), members.size(), "add", "size of the set");
    }
    std::string describeSet() const
    {
        std::string s = "{";
        for (auto* m : members) s += m->text + "; ";
        return s + "}";
    }

    template<typename Ret, typename... V> Ret call(V&&... v) const
    {
        return get().call<Ret>(std::forward<V>(v)...);
    }
};

std::string convName(int to) { return to == TInt ? "Cv::int" : to == TCvB ? "Cv::CvB" : "Cv::A"; }

template<typename Ret> struct Invoke
{
    template<typename... V> static void run(const Set& s, V&&... v) { (void) s.call<Ret>(std::forward<V>(v)...); }
};
template<> struct Invoke<void>
{
    template<typename... V> static void run(const Set& s, V&&... v) { s.call<void>(std::forward<V>(v)...); }
};

// fixed is false if nothing but the order may decide.
template<typename Ret, typename... V>
void check(const Set& set, const Sig& as, V&&... v)
{
    Outcome o = predict(set.sigs, as);
    if (o.kind == Outcome::Ran && set.sigs[o.which]->ret.t == TValue && as.ret.t != TVoid && as.ret.t != TValue)
        return; // what comes back is only known at call time.

    describe(as.print() + " on " + set.describeSet());
    calls().clear();
    std::string what;
    bool raised = raises([&] { Invoke<Ret>::run(set, std::forward<V>(v)...); }, &what);

    std::vector<std::string> ran, convs;
    for (auto& c : calls()) (c.compare(0, 4, "Cv::") ? ran : convs).push_back(c);

    if (o.kind != Outcome::Ran) {
        event(o.kind == Outcome::Ambiguous ? "ambiguous calls" : "calls without overload");
        VF_CHECK(raised, "no-error", (o.kind == Outcome::Ambiguous ? "ambiguous" : "unmatched") << " call ran " << join(calls()));
        VF_CHECK(calls().empty(), "ran-on-error", "ran " << join(calls()));
        bool amb = what.find("ambiguous") != std::string::npos;
        VF_EQ(amb, o.kind == Outcome::Ambiguous, "wrong-error", what);
        if (o.kind == Outcome::Ambiguous) distinct("amb" + as.print() + set.describeSet()); else trivial();
        return;
    }

    event(o.exacts ? (o.partials || o.exacts > 1 ? "exact among others" : "exact alone") : "partial alone");
    if (set.members.size() > 1 && o.exacts + o.partials > 1) distinct(as.print() + set.describeSet());
    else trivial();
    VF_CHECK(!raised, "error", "raised " << what << ", expected " << set.members[o.which]->text);
    VF_EQ(join(ran), join({ set.members[o.which]->text }), "wrong-overload", "what ran");

    std::vector<std::string> expConvs;
    for (size_t i = 0; i < as.args.size(); ++i)
        if (converts(as.args[i].t, set.sigs[o.which]->args[i].t)) expConvs.push_back(convName(set.sigs[o.which]->args[i].t));
    std::sort(convs.begin(), convs.end());
    std::sort(expConvs.begin(), expConvs.end());
    VF_EQ(join(convs), join(expConvs), "conversions", "conversions that ran");
}

template<typename Ret>
void checkDynamic(const Set& s, std::vector<Value>& v)
{
    Sig as;
    as.ret = declared<Ret>();
    for (auto& x : v) as.args.push_back(of(x));
    switch (v.size()) {
    case 0: check<Ret>(s, as); break;
    case 1: check<Ret>(s, as, v[0]); check<Ret>(s, as, Value(v[0])); break;
    case 2: check<Ret>(s, as, v[0], v[1]); break;
    case 3: check<Ret>(s, as, v[0], const_cast<const Value&>(v[1]), Value(v[2])); break;
    case 4: check<Ret>(s, as, v[0], v[1], v[2], v[3]); break;
    case 5: check<Ret>(s, as, v[0], v[1], v[2], v[3], v[4]); break;
    }
}

void checkDynamicAny(const Set& s, std::vector<Value>& v, int ret)
{
    switch (ret) {
    case 0: checkDynamic<void>(s, v); break;
    case 1: checkDynamic<Value>(s, v); break;
    case 2: checkDynamic<int>(s, v); break;
    case 3: checkDynamic<A>(s, v); break;
    case 4: checkDynamic<const A&>(s, v); break;
    case 5: checkDynamic<A&>(s, v); break;
    case 6: checkDynamic<std::string>(s, v); break;
    }
}

template<typename... V> void checkStatic(const Set& s, V&&... v)
{
    Sig as;
    as.args = { declared<V&&>()... };
    check<void>(s, as, std::forward<V>(v)...);
    as.ret = declared<Value>();
    check<Value>(s, as, std::forward<V>(v)...);
}

struct Objects
{
    int i = 3; const int ci = 4; A a = A(1); const A ca = A(2); B b = B(3); const B cb = B(4); C c = C(5); const C cc = C(6);
    Cv cv = Cv(7); U u = U(8); std::string s = "str"; const std::string cs = "cstr"; A* pa = &a; B* pb = &b; B* const cpb = &b;
    std::shared_ptr<A> sa; std::shared_ptr<B> sb; const std::shared_ptr<B> csb; NC nc; const NC cnc = NC(3); NM nm; CvB cvb; double d = 1.5;

    Value pick(Rng& r)
    {
        Value v;
        switch (r.below(32)) {
        case 0: v = Value(i); break; case 1: v = Value(ci); break; case 2: v = Value(5); break;
        case 3: v = Value(a); break; case 4: v = Value(ca); break; case 5: v = Value(A(9)); break;
        case 6: case 24: v = Value(b); break; case 7: v = Value(cb); break; case 8: v = Value(B(9)); break;
        case 9: case 25: v = Value(c); break; case 10: v = Value(cc); break; case 11: v = Value(C(9)); break;
        case 12: v = Value(cv); break; case 13: v = Value(Cv(3)); break; case 14: v = Value(u); break;
        case 15: v = Value(s); break; case 16: v = Value(cs); break; case 17: v = Value(std::string("tmp")); break;
        case 18: v = Value(pa); break; case 19: v = Value(pb); break; case 20: v = Value(cpb); break;
        case 21: v = Value(sa); break; case 22: v = Value(sb); break; case 23: v = Value(csb); break;
        case 26: v = Value(nc); break; case 27: v = Value(cnc); break; case 28: v = Value(nm); break;
        case 29: v = Value(d); break; case 30: v = Value(cvb); break; default: v = Value(a); break;
        }
        if (r.chance(20)) v = v.toConst();
        if (r.chance(25)) v = v.rvalue();
        return v;
    }

    // A value that has a chance to be accepted for the parameter.
    Value pickFor(Rng& r, const Arg& p)
    {
        Value v;
        for (int n = 0; n < 12; ++n) {
            v = pick(r);
            if (passing(of(v), p) != Match::None && r.chance(90)) break;
        }
        return v;
    }
};

void callAll(const Set& s, Rng& r, Objects& o, int count)
{
    for (int n = 0; n < count; ++n) {
        const Sig& near = *s.sigs[r.below(s.sigs.size())];
        std::vector<Value> v;
        for (auto& p : near.args) v.push_back(o.pickFor(r, p));
        if (r.chance(4) && !v.empty()) v.pop_back();
        if (r.chance(4)) v.push_back(o.pick(r));
        checkDynamicAny(s, v, r.chance(45) ? 0 : r.below(7));
    }
}

void callStatic(const Set& s, Rng& r, Objects& o)
{
    switch (s.sigs[0]->args.size()) {
    case 0: checkStatic(s); break;
    case 1:
        checkStatic(s, o.i); checkStatic(s, o.ci); checkStatic(s, 3);
        checkStatic(s, o.a); checkStatic(s, o.ca); checkStatic(s, A(3));
        checkStatic(s, o.b); checkStatic(s, o.cb); checkStatic(s, B(3));
        checkStatic(s, o.c); checkStatic(s, o.cv); checkStatic(s, Cv(3)); checkStatic(s, o.u);
        checkStatic(s, o.s); checkStatic(s, o.cs); checkStatic(s, std::string("x"));
        checkStatic(s, o.pa); checkStatic(s, o.pb); checkStatic(s, &o.b); checkStatic(s, o.sb);
        break;
    case 2:
        checkStatic(s, o.i, o.a); checkStatic(s, 3, 4); checkStatic(s, o.a, 3); checkStatic(s, o.b, o.ci);
        checkStatic(s, o.b, o.b); checkStatic(s, o.cb, o.b); checkStatic(s, o.c, o.c); checkStatic(s, A(1), o.b);
        checkStatic(s, B(2), A(1)); checkStatic(s, o.cv, o.i); checkStatic(s, o.s, o.cv); checkStatic(s, o.nc, o.nm);
        checkStatic(s, o.u, o.d); checkStatic(s, C(1), C(2));
        break;
    case 3:
        checkStatic(s, o.c, o.c, o.c); checkStatic(s, o.i, o.b, o.s); checkStatic(s, A(1), B(1), o.c);
        break;
    }
}

void run(uint64_t, Rng& r)
{
    const auto& pool = vp::pool();
    // Sets gather signatures of one arity, mostly on related types.
    std::vector<const vp::Entry*> cands;
    static const std::vector<size_t> arities = { 1, 1, 1, 1, 2, 2, 2, 0, 3 };
    size_t arity = r.pick(arities);
    const vp::Entry* seed = nullptr;
    while (!seed) { auto* e = &pool[r.below(pool.size())]; if (e->sig.args.size() == arity) seed = e; }
    for (auto& e : pool) {
        if (e.sig.args.size() != arity) continue;
        bool related = arity != 1;
        for (size_t i = 0; i < arity && !related; ++i) {
            int x = e.sig.args[i].t, y = seed->sig.args[i].t;
            related = isBase(x, y) || isBase(y, x) || converts(x, y) || converts(y, x) || x == TValue;
        }
        if (related || r.chance(10)) cands.push_back(&e);
    }
    r.shuffle(cands);
    if (cands.size() > 7) cands.resize(2 + r.below(6));
    if (r.chance(30)) cands.push_back(&pool[r.below(pool.size())]);
    if (r.chance(10)) cands.push_back(cands[0]); // the very same signature.

    Objects o;
    Set set(r.below(3));
    for (auto* e : cands) set.add(*e);
    if (set.empty()) return;
    sample(set.describeSet());
    callAll(set, r, o, 25);
    if (r.chance(25)) callStatic(set, r, o);

    // The same members in other orders give the same outcomes, but for several exact matches.
    for (int k = 0; k < 2; ++k) {
        auto members = set.members;
        r.shuffle(members);
        Set other(r.below(3));
        for (auto* e : members) other.add(*e);
        if (other.members.size() != set.members.size()) continue; // not describable in this order.
        event("reordered sets");
        for (int n = 0; n < 12; ++n) {
            const Sig& near = *set.sigs[r.below(set.sigs.size())];
            Sig as;
            std::vector<Value> v;
            for (auto& p : near.args) { v.push_back(o.pickFor(r, p)); as.args.push_back(of(v.back())); }
            if (predict(set.sigs, as).exacts > 1) continue;
            auto outcome = [&] (const Set& s) {
                calls().clear();
                std::string what;
                bool raised = raises([&] {
                    switch (v.size()) {
                    case 0: s.call<void>(); break;
                    case 1: if (s.type) s.type->call<void>("fn", v[0]); else if (s.scope) s.scope->call<void>("in::fn", v[0]); else s.call<void>(v[0]); break;
                    case 2: s.call<void>(v[0], v[1]); break;
                    case 3: s.call<void>(v[0], v[1], v[2]); break;
                    case 4: s.call<void>(v[0], v[1], v[2], v[3]); break;
                    }
                }, &what);
                return std::string(raised ? what.find("ambiguous") != std::string::npos ? "ambiguous " : "missing " : "ok ") + join(calls());
            };
            describe(as.print() + " on " + set.describeSet() + " and " + other.describeSet());
            event("outcomes compared across orders");
            VF_EQ(outcome(other), outcome(set), "order", "outcome depends on the order");
        }
        callAll(other, r, o, 5);
    }

    // Queries agree with the members.
    for (int n = 0; n < 10; ++n) {
        Sig as = *set.sigs[r.below(set.sigs.size())];
        for (auto& a : as.args) {
            static const RefType refs[] = { RefType::Copy, RefType::LValue, RefType::RValue };
            if (r.chance(40)) a.r = refs[r.below(3)];
            if (r.chance(30)) a.c = !a.c;
            if (r.chance(30)) a.t = r.below(TypeCount);
        }
        if (r.chance(50)) as.ret = Arg();
        std::vector<reflect::Argument> args;
        for (auto& a : as.args) args.push_back(a.real());
        int first = -1;
        for (size_t i = 0; i < set.sigs.size(); ++i)
            if (calling(as, *set.sigs[i]) != Match::None) { first = i; break; }
        describe("query " + as.print() + " on " + set.describeSet());
        const Overloads& ov = set.get();
        VF_EQ(ov.test(as.ret.real(), args), first >= 0, "query", "test");
        const Function* got = nullptr;
        raises([&] { got = &ov.get(as.ret.real(), args); });
        VF_CHECK(got == (first >= 0 ? &ov[first] : nullptr), "query", "get gave another overload");
        const vp::Entry& e = pool[r.below(pool.size())];
        bool any = false;
        int at = -1;
        for (size_t i = 0; i < set.sigs.size(); ++i)
            if (calling(e.sig, *set.sigs[i]) != Match::None && at < 0) at = i;
        for (auto* m : set.sigs) any = any || calling(*m, e.sig) != Match::None; // could it stand in for one of them?
        VF_EQ(e.overloadsTest(ov), at >= 0, "query", "static test of " + e.text);
        VF_EQ(ov.test(e.make("x")), any, "query", "test of function " + e.text);
        got = nullptr;
        raises([&] { got = &e.overloadsGet(ov); });
        VF_CHECK(got == (at >= 0 ? &ov[at] : nullptr), "query", "static get gave another overload for " << e.text);
        event("queries");
    }
    set.ov = Overloads();
}

} // namespace

const vf::Harness harness = { "c04", &run, nullptr, nullptr };
