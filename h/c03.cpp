// C03: argument matching against the model.
#include "pool.h"

using namespace vt;
using namespace vm;
using namespace vf;
using reflect::Value;
using reflect::Argument;
using reflect::Function;

namespace {

Arg argNo(int i)
{
    static const RefType refs[] = { RefType::Copy, RefType::LValue, RefType::RValue };
    return Arg(i / 6, refs[(i / 2) % 3], i & 1);
}
const int ArgCount = TypeCount * 6;

std::string str(Match m) { return m == Match::None ? "none" : m == Match::Exact ? "exact" : "partial"; }

void checkPair(const Arg& from, const Arg& to)
{
    Match got = from.real().isConvertibleTo(to.real());
    Match exp = passing(from, to);
    event("pairs matched");
    event(exp == Match::None ? "none" : exp == Match::Exact ? "exact" : "partial");
    VF_CHECK(got == exp, "pair", from.print() << " -> " << to.print() << " is " << str(got) << ", expected " << str(exp));
}

// Argument::make must describe what C++ says about the type.
template<typename T> void checkMade()
{
    Arg m = declared<T>();
    Argument a = Argument::make<T>();
    event("described types");
    VF_CHECK(a == m.real() && a.type() == desc(m.t) && a.refType() == m.r && a.isConst() == m.c,
            "describe", a.print() << " for " << m.print());
    VF_EQ(a.isTemporary(), m.r != RefType::LValue, "describe", "isTemporary of " + m.print());
    VF_EQ(a.isConstRef(), m.r == RefType::LValue && m.c, "describe", "isConstRef of " + m.print());
    VF_EQ(a.isLValueRef(), m.r == RefType::LValue && !m.c, "describe", "isLValueRef of " + m.print());
    VF_EQ(a.isVoid(), m.t == TVoid, "describe", "isVoid of " + m.print());
    for (int j = 0; j < ArgCount; ++j) {
        Match got = argNo(j).real().isConvertibleTo<T>();
        VF_CHECK(got == passing(argNo(j), m), "pair", argNo(j).print() << " -> " << m.print() << " is " << str(got));
    }
}
template<typename T> void checkMadeAll()
{
    checkMade<T>(); checkMade<T&>(); checkMade<const T&>(); checkMade<T&&>(); checkMade<const T&&>();
    checkMade<const T>();
}

// Argument::make(value) describes the expression.
template<typename T> void checkExpr(T&& x, const Arg& exp)
{
    Argument a = Argument::make(std::forward<T>(x));
    event("described expressions");
    VF_CHECK(a == exp.real(), "describe", a.print() << " for an expression of " << exp.print());
}
template<typename T> void checkExprs(int no)
{
    T x = T();
    const T c = T();
    checkExpr(x, Arg(no, RefType::LValue, false));
    checkExpr(c, Arg(no, RefType::LValue, true));
    checkExpr(std::move(x), Arg(no, RefType::RValue, false));
    checkExpr(std::move(c), Arg(no, RefType::RValue, true));
    checkExpr(T(), Arg(no, RefType::RValue, false));
}

Arg randomArg(Rng& r) { return argNo(r.below(ArgCount)); }

// An argument close to the given one so that matches aren't too rare.
Arg nearArg(Rng& r, const Arg& p)
{
    Arg a = p;
    if (r.chance(30)) {
        static const RefType refs[] = { RefType::Copy, RefType::LValue, RefType::RValue };
        a.r = refs[r.below(3)];
    }
    if (r.chance(25)) a.c = !a.c;
    if (r.chance(30)) {
        std::vector<int> rel;
        for (int t = 0; t < TypeCount; ++t) if (isBase(p.t, t) || isBase(t, p.t) || converts(t, p.t)) rel.push_back(t);
        a.t = rel[r.below(rel.size())];
    }
    if (r.chance(6)) a.t = TValue;
    if (r.chance(6)) a = randomArg(r);
    return a;
}

Sig nearSig(Rng& r, const Sig& s)
{
    Sig n = s;
    n.ret = r.chance(30) ? Arg() : r.chance(70) ? nearArg(r, s.ret) : randomArg(r);
    for (auto& a : n.args) a = nearArg(r, a);
    if (r.chance(6)) n.args.push_back(randomArg(r));
    if (r.chance(6) && !n.args.empty()) n.args.pop_back();
    if (r.chance(4) && n.args.size() > 1) std::swap(n.args[0], n.args[1]);
    return n;
}

std::vector<Argument> realArgs(const Sig& s)
{
    std::vector<Argument> v;
    for (auto& a : s.args) v.push_back(a.real());
    return v;
}

const std::vector<Function>& functions()
{
    static std::vector<Function>* fns = [] {
        auto* v = new std::vector<Function>;
        for (auto& e : vp::pool()) v->push_back(e.make("f"));
        return v;
    }();
    return *fns;
}

void checkDeclared(size_t i)
{
    const vp::Entry& e = vp::pool()[i];
    const Function& f = functions()[i];
    VF_CHECK(f.returnType() == e.sig.ret.real(), "describe", "result of " << e.text << " is " << f.returnType().print());
    VF_EQ(f.arguments(), e.sig.args.size(), "describe", "argument count of " + e.text);
    for (size_t k = 0; k < f.arguments(); ++k)
        VF_CHECK(f.argument(k) == e.sig.args[k].real(), "describe", "argument " << k << " of " << e.text << " is " << f.argument(k).print());
    for (size_t j = 0; j < vp::pool().size(); ++j) {
        const vp::Entry& o = vp::pool()[j];
        Match exp = calling(o.sig, e.sig);
        Match got = f.test(functions()[j]);
        event("signature pairs");
        VF_CHECK(got == exp, "signature", o.text << " for " << e.text << " is " << str(got) << ", expected " << str(exp));
        got = o.testOn(f);
        VF_CHECK(got == exp, "signature", "static " << o.text << " for " << e.text << " is " << str(got) << ", expected " << str(exp));
    }
}

template<typename... V>
void checkParams(const Function& f, const Sig& fs, const Sig& as, V&&... v)
{
    Match exp = Match::Exact;
    if (as.args.size() != fs.args.size()) exp = Match::None;
    else for (size_t i = 0; i < fs.args.size(); ++i) exp = worst(exp, passing(as.args[i], fs.args[i]));
    event("live argument lists");
    {
        Match got = f.testParams<void>(std::forward<V>(v)...);
        VF_CHECK(got == exp, "params", as.print() << " for " << fs.print() << " is " << str(got) << ", expected " << str(exp));
    }
    auto with = [&] (Arg ret, Match got) {
        Match e = worst(exp, returning(ret, fs.ret));
        VF_CHECK(got == e, "params", ret.print() << " from " << as.print() << " for " << fs.print() << " is " << str(got) << ", expected " << str(e));
    };
    with(Arg(TInt), f.testParams<int>(std::forward<V>(v)...));
    with(Arg(TA, RefType::LValue, true), f.testParams<const A&>(std::forward<V>(v)...));
    with(Arg(TA, RefType::LValue, false), f.testParams<A&>(std::forward<V>(v)...));
    with(Arg(TA), f.testParams<A>(std::forward<V>(v)...));
    with(Arg(TValue), f.testParams<Value>(std::forward<V>(v)...));
}

void run(uint64_t idx, Rng& r)
{
    if (idx < uint64_t(ArgCount)) { // exhaustive: every argument against every parameter.
        Arg from = argNo(idx);
        describe("all parameters for " + from.print());
        for (int j = 0; j < ArgCount; ++j) {
            checkPair(from, argNo(j));
            if (passing(from, argNo(j)) != Match::None) distinct(idx * 100003 + j); else trivial();
        }
        sample(from.print() + " against all " + std::to_string(ArgCount) + " parameters");
        return;
    }
    idx -= ArgCount;
    if (idx < vp::pool().size()) { describe(vp::pool()[idx].text); checkDeclared(idx); return; }
    idx -= vp::pool().size();
    if (idx == 0) {
        checkMadeAll<int>(); checkMadeAll<std::string>(); checkMadeAll<A>(); checkMadeAll<B>(); checkMadeAll<C>();
        checkMadeAll<U>(); checkMadeAll<Cv>(); checkMadeAll<NC>(); checkMadeAll<NM>(); checkMadeAll<A*>();
        checkMadeAll<B*>(); checkMadeAll<B**>(); checkMadeAll<int*>(); checkMadeAll<std::shared_ptr<A> >();
        checkMadeAll<std::unique_ptr<B> >(); checkMadeAll<std::vector<int> >(); checkMadeAll<bool>();
        checkMadeAll<double>(); checkMadeAll<Value>();
        checkMade<void>();
        return;
    }
    if (idx == 1) {
        checkExprs<int>(TInt); checkExprs<std::string>(TString); checkExprs<A>(TA); checkExprs<B>(TB);
        checkExprs<A*>(TPA); checkExprs<std::shared_ptr<B> >(TSB); checkExprs<double>(TDouble);
        return;
    }

    // Random signatures against a random function, some of them moved over one of another signature.
    size_t i = r.below(vp::pool().size());
    const vp::Entry& e = vp::pool()[i];
    Function over = vp::pool()[r.below(vp::pool().size())].make("g");
    if (r.chance(50)) over = e.make("f"), event("moved functions");
    else if (r.chance(50)) { Function tmp = e.make("f"); over = Function(std::move(tmp)); event("moved functions"); }
    const Function& f = over.name() == "f" ? over : functions()[i];
    VF_EQ(f.name(), std::string("f"), "describe", "name of a moved function");
    reflect::Overloads one;
    one.add(e.make("f"));

    for (int k = 0; k < 20; ++k) {
        Sig as = nearSig(r, e.sig);
        describe(as.print() + " for " + e.text);
        Match exp = calling(as, e.sig);
        auto args = realArgs(as);
        Match got = f.test(as.ret.real(), args);
        event("random signatures");
        if (exp != Match::None) { event("random signatures that match"); distinct(as.print() + e.text); }
        else trivial();
        VF_CHECK(got == exp, "signature", as.print() << " for " << e.text << " is " << str(got) << ", expected " << str(exp));
        VF_EQ(one.test(as.ret.real(), args), exp != Match::None, "signature", "overloads test");
        bool raised = raises([&] { if (&one.get(as.ret.real(), args) != &one[0]) fail("signature", "get gave something else"); });
        VF_EQ(raised, exp == Match::None, "signature", "overloads get raises");
        if (k == 0) sample(as.print() + " for " + e.text + " = " + str(exp));
    }

    // Live values.
    int iv = 1; const int ic = 2; B b; const B bc; A a; C c; Cv cv; U u; std::string s; A* pa = &a; B* pb = &b;
    std::shared_ptr<A> sa; std::shared_ptr<B> sb;
    std::vector<Value> vals = { Value(iv), Value(ic), Value(3), Value(b), Value(bc), Value(a), Value(c), Value(cv), Value(u),
        Value(s), Value(pa), Value(pb), Value(sa), Value(sb), Value(A(3)), Value(B(4)), Value(Cv(5)) };
    for (int k = 0; k < 6; ++k) {
        std::vector<Value> v;
        for (int n = 0; n < 3; ++n) {
            Value x = vals[r.below(vals.size())];
            if (r.chance(25)) x = x.toConst();
            if (r.chance(25)) x = x.rvalue();
            v.push_back(x);
        }
        Sig as;
        if (e.sig.args.size() == 1) { as.args = { of(v[0]) }; checkParams(f, e.sig, as, v[0]); checkParams(f, e.sig, as, Value(v[0])); }
        else if (e.sig.args.size() == 2) { as.args = { of(v[0]), of(v[1]) }; checkParams(f, e.sig, as, v[0], const_cast<const Value&>(v[1])); }
        else if (e.sig.args.size() == 3) { as.args = { of(v[0]), of(v[1]), of(v[2]) }; checkParams(f, e.sig, as, v[0], v[1], v[2]); }
        else checkParams(f, e.sig, as);
    }
    if (e.sig.args.size() == 2) {
        Sig as;
        as.args = { Arg(TInt, RefType::LValue), Arg(TA, RefType::LValue) }; checkParams(f, e.sig, as, iv, a);
        as.args = { Arg(TInt, RefType::RValue), Arg(TB, RefType::LValue, true) }; checkParams(f, e.sig, as, 4, bc);
        as.args = { Arg(TB, RefType::RValue), Arg(TInt, RefType::LValue, true) }; checkParams(f, e.sig, as, B(), ic);
        as.args = { Arg(TB, RefType::LValue), Arg(TC, RefType::LValue) }; checkParams(f, e.sig, as, b, c);
        as.args = { Arg(TB, RefType::LValue) }; checkParams(f, e.sig, as, b);
    }
    VF_CHECK(calls().empty(), "ran", "matching ran " << join(calls()));
}

} // namespace

const vf::Harness harness = { "c03", &run, nullptr, nullptr };
