// C10: extracting C++ objects from opaque values, against a model of what must come out or be refused.
#include "model.h"

using namespace vt;
using namespace vm;
using namespace vf;
using reflect::Value;

typedef std::shared_ptr<A> SA; typedef std::shared_ptr<B> SB;
typedef std::unique_ptr<A> UA; typedef std::unique_ptr<B> UB;
typedef std::vector<int> VI;

// A parent that's not at the beginning of the child.
struct Before { long before; };
struct Shifted : public Before, public A
{
    Shifted() {}
    explicit Shifted(int v) : A(v) { before = -1; }
};
reflectTypeDecl(Shifted)
reflectTypeImpl(Shifted) { reflectParent(vt::A); reflectPlumbing(); }

// Converts to types under other names than their own.
namespace c10 {

struct Inner { int v; Inner(int v = 0) : v(v) {} };
typedef std::vector<int> Ints;
typedef Inner Alias;

struct Spelled
{
    Inner in;
    int64_t n;
    explicit Spelled(int v = 0) : in(v), n(int64_t(v) * (1ll << 33)) {}
    operator int64_t() const { return n; }
    operator unsigned() const { return unsigned(in.v) + 1; }
    operator Ints() const { return Ints(3, in.v); }
    operator const Alias&() const { return in; }
};

}
reflectTypeDecl(c10::Inner) reflectTypeDecl(c10::Spelled)
reflectTypeImpl(c10::Inner) { reflectPlumbing(); reflectField(v); }
reflectTypeImpl(c10::Spelled)
{
    reflectPlumbing();
    reflectOpCast(int64_t);
    reflectOpCast(unsigned);
    reflectOpCast(c10::Ints);
    reflectOpCast(const c10::Alias&);
}

namespace {

// ------------------------------------------------------------------ what objects hold

std::string show(const A& o) { o.t.check(); return o.t.moved() ? "gone" : VF_STR("A" << o.v << o.s); }
std::string show(const U& o) { o.t.check(); return o.t.moved() ? "gone" : VF_STR("U" << o.v); }
std::string show(const Cv& o) { o.t.check(); return o.t.moved() ? "gone" : VF_STR("Cv" << o.v); }
std::string show(const NC& o) { o.t.check(); return o.t.moved() ? "gone" : VF_STR("NC" << o.v); }
std::string show(const NM& o) { o.t.check(); return VF_STR("NM" << o.v); }
std::string show(bool o) { return o ? "true" : "false"; }
std::string show(int o) { return VF_STR("i" << o); }
std::string show(long o) { return VF_STR("l" << o); }
std::string show(double o) { return VF_STR("d" << o); }
std::string show(const std::string& o) { return o; }
std::string show(const VI& o) { std::string s = "["; for (int x : o) s += std::to_string(x) + ","; return s + "]"; }
template<typename T> std::string show(T* o) { return VF_STR("p" << (void*) o); }
template<typename T> std::string show(const std::shared_ptr<T>& o) { return VF_STR("sp" << (void*) o.get()); }
template<typename T> std::string show(const std::unique_ptr<T>& o) { return VF_STR("up" << (void*) o.get()); }

std::string gone(int t, const std::string& was)
{
    switch (t) {
    case TA: case TB: case TC: case TU: case TCv: case TCvB: case TNC: return "gone";
    case TSA: case TSB: return show(SA());
    case TUA: case TUB: return show(UA());
    case TVecInt: return "[]";
    case TString: return "";
    default: return was;
    }
}

// ------------------------------------------------------------------ held objects

struct Held
{
    int t;
    void* p;                                // native object
    Value v;
    bool owned;
    std::shared_ptr<void> keep;
    long (*uses)(const void*);
    std::string (*showIt)(const void*);
    std::string content() const { return showIt(p); }
    std::string how;
};

template<typename T> struct Uses { static long get(const void*) { return 0; } };
template<typename T> struct Uses<std::shared_ptr<T> > { static long get(const void* p) { return static_cast<const std::shared_ptr<T>*>(p)->use_count(); } };
template<typename T> std::string showT(const void* p) { return show(*static_cast<const T*>(p)); }

// NM can't be moved into a value.
template<typename T> Value own(T* p, std::true_type) { return Value(std::move(*p)); }
template<typename T> Value own(T* p, std::false_type) { return Value(*p); }

template<typename T> void hold(Held& h, T* p, Rng& r)
{
    h.t = No<T>::value;
    h.keep.reset(p);
    h.uses = &Uses<T>::get;
    h.showIt = &showT<T>;
    h.p = p;
    h.owned = false;
    switch (r.below(std::is_move_constructible<T>::value ? 4 : 2)) {
    case 0: h.v = Value(*p); h.how = "lvalue"; break;
    case 1: h.v = Value(static_cast<const T&>(*p)); h.how = "const lvalue"; break;
    default:
        h.v = own<T>(p, typename std::is_move_constructible<T>::type());
        h.keep.reset();
        h.p = h.v.value();
        h.owned = true;
        h.how = "owned";
        break;
    }
    if (r.chance(15)) { h.v = h.v.toConst(); h.how += ", made const"; }
    if (r.chance(20)) { h.v = h.v.rvalue(); h.how += ", made an rvalue"; }
    VF_EQ(h.v.value(), h.p, "held-identity", "address of the held object");
}

void makeHeld(Held& h, Rng& r)
{
    int x = r.range(-5, 1000);
    switch (r.below(17)) {
    case 0: hold(h, new A(x), r); break;
    case 1: hold(h, new B(x), r); break;
    case 2: hold(h, new C(x), r); break;
    case 3: hold(h, new U(x), r); break;
    case 4: hold(h, new Cv(x), r); break;
    case 5: hold(h, new CvB(x), r); break;
    case 6: hold(h, new NC(x), r); break;
    case 7: hold(h, new NM(x), r); break;
    case 8: hold(h, new int(x), r); break;
    case 9: hold(h, new bool(x & 1), r); break;
    case 10: hold(h, new std::string("text " + std::to_string(x) + " long enough for the heap"), r); break;
    case 11: hold(h, new SA(r.chance(20) ? nullptr : new A(x)), r); break;
    case 12: hold(h, new SB(r.chance(20) ? nullptr : new B(x)), r); break;
    case 13: hold(h, new UA(r.chance(20) ? nullptr : new A(x)), r); break;
    case 14: hold(h, new UB(r.chance(20) ? nullptr : new B(x)), r); break;
    case 15: { static A a(7); static B b(8); static C c(9); A* all[] = { nullptr, &a, &b, &c }; if (r.chance(50)) hold(h, new A*(all[r.below(4)]), r); else hold(h, new B*(r.chance(50) ? &b : nullptr), r); break; }
    default: hold(h, new VI(r.below(5), x), r); break;
    }
}

// ------------------------------------------------------------------ targets

enum How { ByValue, ByConstValue, ByRef, ByConstRef, ByRValue, As, Get, ViaConvert, HowCount };
const char* hows[] = { "T", "const T", "T&", "const T&", "T&&", "as<T>", "get<T>", "convert" };

// Nothing of a type that can't be copied or moved as asked can be handed over by value (C++11).
template<typename T, bool = std::is_move_constructible<T>::value> struct ByVal
{
    static std::string value(Value& v, const void* held) { T x = reflect::cast<T>(v); if ((const void*) &x == held) return "not a copy"; return show(x); }
    static std::string cvalue(Value& v, const void* held, std::true_type) { const T& x = reflect::cast<const T>(v); if ((const void*) &x == held) return "not a copy"; return show(x); }
    static std::string cvalue(Value& v, const void* held, std::false_type) { return value(v, held); }
    static std::string cvalue(Value& v, const void* held) { return cvalue(v, held, typename std::is_copy_constructible<T>::type()); }
    static std::string rvalue(Value& v, const void* held) { T&& x = reflect::cast<T&&>(v); if ((const void*) &x == held) return "not moved"; return show(x); }
    static std::string convert(Value& v) { T x = v.convert<T>(reflect::type<T>()); return show(x); }
    enum { can = true };
};
template<typename T> struct ByVal<T, false>
{
    static std::string value(Value&, const void*) { return ""; }
    static std::string cvalue(Value&, const void*) { return ""; }
    static std::string rvalue(Value&, const void*) { return ""; }
    static std::string convert(Value&) { return ""; }
    enum { can = false };
};

struct Target
{
    int t;
    bool byValue, copiable, movable;
    std::string (*value)(Value&, const void*);
    std::string (*cvalue)(Value&, const void*);
    std::string (*rvalue)(Value&, const void*);
    std::string (*convert)(Value&);
    const void* (*ref)(Value&);
    const void* (*cref)(Value&);
    const void* (*as)(Value&);
    const void* (*get)(Value&);
    bool (*castable[5])(const Value&);
};
template<typename T> const void* refT(Value& v) { T& x = reflect::cast<T&>(v); return &x; }
template<typename T> const void* crefT(Value& v) { const T& x = reflect::cast<const T&>(v); return &x; }
template<typename T> const void* asT(Value& v) { T& x = v.as<T>(); return &x; }
template<typename T> const void* getT(Value& v) { const T& x = v.get<T>(); return &x; }
template<typename T> bool castableT(const Value& v) { return reflect::isCastable<T>(v); }
template<typename T> Target target()
{
    Target t;
    t.t = No<T>::value;
    t.byValue = ByVal<T>::can;
    t.copiable = std::is_copy_constructible<T>::value;
    t.movable = std::is_move_constructible<T>::value;
    t.value = &ByVal<T>::value; t.cvalue = &ByVal<T>::cvalue; t.rvalue = &ByVal<T>::rvalue; t.convert = &ByVal<T>::convert;
    t.ref = &refT<T>; t.cref = &crefT<T>; t.as = &asT<T>; t.get = &getT<T>;
    t.castable[0] = &castableT<T>; t.castable[1] = &castableT<const T>; t.castable[2] = &castableT<T&>;
    t.castable[3] = &castableT<const T&>; t.castable[4] = &castableT<T&&>;
    return t;
}
std::vector<Target>& targets()
{
    static auto* v = new std::vector<Target>{ target<A>(), target<B>(), target<C>(), target<U>(), target<Cv>(), target<CvB>(),
        target<NC>(), target<NM>(), target<int>(), target<long>(), target<bool>(), target<double>(), target<std::string>(), target<SA>(), target<SB>(),
        target<UA>(), target<UB>(), target<A*>(), target<B*>(), target<VI>() };
    return *v;
}

// What the conversion gives.
std::string converted(const Held& h, int to)
{
    if (to == TBool) {
        switch (h.t) {
        case TSA: return show(bool(*static_cast<SA*>(h.p))); case TSB: return show(bool(*static_cast<SB*>(h.p)));
        case TUA: return show(bool(*static_cast<UA*>(h.p))); case TUB: return show(bool(*static_cast<UB*>(h.p)));
        default: return show(*static_cast<A**>(h.p) != nullptr);
        }
    }
    int v = static_cast<Cv*>(h.p)->v;
    return to == TA ? show(A(v)) : to == TCvB ? show(CvB(v)) : show(v);
}
// The object as seen through its parent.
std::string seenAs(const Held& h, int) { return h.content(); }

void one(Held& h, const Target& t, How how)
{
    const bool child = isBase(t.t, h.t), conv = converts(h.t, t.t);
    Arg src(h.t, h.v.refType(), h.v.isConst());
    describe(VF_STR("a " << name(h.t) << " (" << h.how << ") to " << hows[how] << " with T = " << name(t.t)));

    // model
    bool ok = false, moves = false, byConv = false;
    switch (how) {
    case ByValue: case ByConstValue: case ByRValue:
        if (how == ByRValue ? !t.movable : !t.copiable) break;
        if (child) {
            if (how == ByRValue) { ok = moves = true; break; }
            Match c = passing(src, Arg(t.t, RefType::LValue, true)), m = passing(src, Arg(t.t, RefType::RValue, false));
            ok = c == Match::Exact || m == Match::Exact || (c == Match::Partial) != (m == Match::Partial);
            moves = m == Match::Exact || (c == Match::None);
        }
        else if (conv) ok = byConv = true;
        break;
    case ByRef: ok = child && !h.v.isConst() && h.v.refType() == RefType::LValue; break;
    case ByConstRef: case As: case Get: ok = child; break;
    case ViaConvert: ok = byConv = conv; break;
    default: break;
    }
    if (!t.byValue && (how == ByValue || how == ByConstValue || how == ByRValue || how == ViaConvert)) { trivial(); return; }
    if (how == ViaConvert && child && convertible(h.t, t.t)) return;

    const std::string before = h.content();
    const std::string want = byConv ? converted(h, t.t) : seenAs(h, t.t);
    const long uses = h.uses(h.p);
    calls().clear();
    const Track::Counts counts = Track::counts;
    const long live = Track::live();

    std::string got;
    const void* addr = nullptr;
    std::string what;
    bool raised = raises([&] {
        switch (how) {
        case ByValue: got = t.value(h.v, h.p); break;
        case ByConstValue: got = t.cvalue(h.v, h.p); break;
        case ByRValue: got = t.rvalue(h.v, h.p); break;
        case ByRef: addr = t.ref(h.v); break;
        case ByConstRef: addr = t.cref(h.v); break;
        case As: addr = t.as(h.v); break;
        case Get: addr = t.get(h.v); break;
        case ViaConvert: got = t.convert(h.v); break;
        default: break;
        }
    }, &what);

    VF_CHECK(raised == !ok, ok ? "refused" : "accepted", (ok ? "refused: " + what : "accepted") << ", expected otherwise");
    // What a pointer was moved out of goes with its temporary.
    bool gonePointee = moves && (h.t == TSA || h.t == TSB || h.t == TUA || h.t == TUB);
    if (!gonePointee) VF_EQ(Track::live(), live, "leftovers", "objects alive afterwards");
    if (!ok) {
        VF_CHECK(calls().empty(), "ran-code", "ran " << join(calls()) << " before an error");
        VF_CHECK(Track::counts.copy == counts.copy && Track::counts.move == counts.move && Track::counts.dtor == counts.dtor && Track::counts.ctor == counts.ctor,
                "touched", "made or moved objects before an error");
        VF_CHECK(h.content() == before, "touched", "the held object became " << h.content() << " from " << before);
        VF_EQ(h.v.value(), h.p, "touched", "the value refers to something else");
        event("refused");
    }
    else {
        if (addr || (how != ByValue && how != ByConstValue && how != ByRValue && how != ViaConvert)) {
            VF_EQ(addr, (const void*) h.p, "identity", "address of the object");
            VF_CHECK(Track::counts.copy == counts.copy && Track::counts.move == counts.move, "identity", "made a copy");
            event("references");
        }
        else {
            VF_CHECK(got == want, byConv ? "conversion" : "content", "got " << got << ", expected " << want);
            event(byConv ? "conversions" : moves ? "moved out" : "copies");
        }
        std::string after = moves ? gone(h.t == TString || h.t == TVecInt ? h.t : t.t, before) : before;
        if (moves && (h.t == TB || h.t == TC) && after == "gone") {} // the parent's part is gone, all that's shown.
        VF_CHECK(h.content() == after, moves ? "moved" : "changed", "the held object became " << h.content() << ", expected " << after);
        VF_EQ(calls().size(), size_t(byConv && (h.t == TCv || h.t == TCvB) ? 1 : 0), "calls", "conversions run");
        if (!moves) VF_EQ(h.uses(h.p), uses, "shared", "users of the pointee");
    }
    VF_EQ(h.v.type(), desc(h.t), "value-type", "type of the value afterwards");
    distinct(mix(mix(mix(h.t, t.t), how), hash(h.how)));
}

void queries(Held& h, const Target& t)
{
    static const struct { RefType r; bool c; } kinds[] = { { RefType::Copy, false }, { RefType::Copy, true }, { RefType::LValue, false }, { RefType::LValue, true }, { RefType::RValue, false } };
    Arg src(h.t, h.v.refType(), h.v.isConst());
    for (int k = 0; k < 5; ++k) {
        bool want = passing(src, Arg(t.t, kinds[k].r, kinds[k].c)) != Match::None;
        VF_EQ(t.castable[k](h.v), want, "castable", "isCastable of a " << name(h.t) << " (" << h.how << ") to kind " << k << " of " << name(t.t));
    }
    event("castable queries", 5);
}

void shifted(Rng& r)
{
    // Reached through a parent that lies elsewhere in the object.
    Shifted s(r.range(1, 100));
    Value v(s);
    const A& a = v.get<A>();
    const void* want = static_cast<A*>(&s);
    if (&a != want) {
        bool known = (const void*) &a == (const void*) &s;
        fail(known ? "base-offset" : "identity", "a parent at an offset is at another address", false);
    }
    event("parents at an offset");
}

void spelled(Rng& r)
{
    describe("conversions described under other names of their types");
    int x = r.range(-1000, 1000);
    c10::Spelled o(x);
    Value v = r.chance(50) ? Value(o) : r.chance(50) ? Value(static_cast<const c10::Spelled&>(o)) : Value(c10::Spelled(x));
    auto* t = v.type();
    VF_CHECK(t->hasConverter(reflect::type<long>()) && t->hasConverter(reflect::type<unsigned int>()) && t->hasConverter(reflect::type<VI>())
            && t->hasConverter(reflect::type<c10::Inner>()), "spelled", "a conversion isn't found by its type");
    VF_CHECK(!t->hasConverter(reflect::type<int>()) && !t->hasConverter(reflect::type<unsigned long>()), "spelled", "a conversion it doesn't have");
    VF_EQ(reflect::cast<int64_t>(v), o.n, "spelled", "the conversion");
    VF_EQ(v.convert<unsigned>(reflect::type<unsigned>()), unsigned(x) + 1, "spelled", "the conversion");
    VF_EQ(show(reflect::cast<VI>(v)), show(VI(3, x)), "spelled", "the conversion");
    VF_EQ(reflect::cast<c10::Inner>(v).v, x, "spelled", "the conversion");
    VF_EQ(reflect::Function("f", +[] (c10::Alias i) { return i.v; }).call<int>(v), x, "spelled", "the converted argument");
    event("conversions under other names");
}

void voids()
{
    describe("an empty value");
    for (auto& t : targets()) {
        for (int how = 0; how < HowCount; ++how) {
            Value v;
            if (!t.byValue && (how == ByValue || how == ByConstValue || how == ByRValue || how == ViaConvert)) continue;
            bool raised = raises([&] {
                switch (how) {
                case ByValue: t.value(v, nullptr); break;
                case ByConstValue: t.cvalue(v, nullptr); break;
                case ByRValue: t.rvalue(v, nullptr); break;
                case ByRef: t.ref(v); break;
                case ByConstRef: t.cref(v); break;
                case As: t.as(v); break;
                case Get: t.get(v); break;
                default: t.convert(v); break;
                }
            });
            VF_CHECK(raised, "empty", "an empty value gave a " << name(t.t) << " by " << hows[how]);
            VF_CHECK(v.isVoid() && !v.value(), "empty", "isn't empty anymore");
        }
        Value v;
        for (int k = 0; k < 5; ++k) VF_CHECK(!t.castable[k](v), "empty", "castable to " << name(t.t));
    }
    raises([&] { Value().copy(); }) || (fail("empty", "copied"), false);
    Value e;
    raises([&] { e.move(); }) || (fail("empty", "moved"), false);
    event("empty values");
}

void run(uint64_t idx, Rng& r)
{
    if (idx == 0) { voids(); return; }
    if (idx % 500 == 1) shifted(r);
    if (idx % 50 == 2) spelled(r);
    // Every target in every way out of one held object after the other (those that move need a fresh one).
    for (int k = 0; k < 12; ++k) {
        const Target& t = targets()[r.below(targets().size())];
        Held h;
        makeHeld(h, r);
        queries(h, t);
        int n = r.range(1, 4);
        while (n--) {
            std::string before = h.content();
            one(h, t, How(r.below(HowCount)));
            if (h.content() != before) break;
            if (r.chance(10)) { Value other = h.v; VF_EQ(other.value(), h.p, "shared-identity", "copy of the value"); }
        }
    }
    // relevant pairs more often
    for (int k = 0; k < 6; ++k) {
        Held h;
        makeHeld(h, r);
        std::vector<const Target*> near;
        for (auto& t : targets()) if (isBase(t.t, h.t) || converts(h.t, t.t) || isBase(h.t, t.t)) near.push_back(&t);
        if (near.empty()) continue;
        one(h, *near[r.below(near.size())], How(r.below(HowCount)));
    }
}

} // namespace

const vf::Harness harness = { "c10", &run, nullptr, nullptr };
