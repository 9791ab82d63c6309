// C11: operators on opaque values against the same operators on native operands, which log what runs.
#include "c11.h"

using namespace vf;
using namespace c11;
using reflect::Value;
using reflect::Type;

namespace c11 { std::vector<Entry>& log() { static auto* v = new std::vector<Entry>; return *v; } }

namespace {

// ------------------------------------------------------------------ operations



enum { FirstBinary = 10, FirstLogic = 20, FirstCompare = 22, BinaryCount = 28 };
const char* binaryNames[] = {
#define C11_X(o, N) #o,
    C11_ASSIGN(C11_X) C11_BINARY(C11_X) C11_LOGIC(C11_X) C11_COMPARE(C11_X)
#undef C11_X
};

// The same expression on opaque operands and on native ones.
template<typename R> Value opaque(int op, const Value& l, R&& r)
{
    int i = 0;
#define C11_X(o, N) if (op == i++) return l o std::forward<R>(r);
    C11_ASSIGN(C11_X) C11_BINARY(C11_X)
#undef C11_X
    return Value();
}
template<typename R> bool opaqueBool(int op, const Value& l, R&& r)
{
    int i = FirstLogic;
#define C11_X(o, N) if (op == i++) return l.operator o(std::forward<R>(r));
    C11_LOGIC(C11_X) C11_COMPARE(C11_X)
#undef C11_X
    return false;
}
int64_t native(int op, Num& l, const Num& r)
{
    int i = 0;
#define C11_X(o, N) if (op == i++) return (l o r).v;
    C11_ASSIGN(C11_X) C11_BINARY(C11_X)
#undef C11_X
#define C11_X(o, N) if (op == i++) return (l o r);
    C11_LOGIC(C11_X) C11_COMPARE(C11_X)
#undef C11_X
    return 0;
}

std::string show(const std::vector<Entry>& l)
{
    std::string s;
    for (auto& e : l) s += VF_STR(e.op << "(" << e.a << "," << e.b << ") ");
    return s;
}
// Same operators with the same operands; self must be the object itself.
void sameLog(const std::vector<Entry>& want, const void* self, const void* arg)
{
    bool same = want.size() == log().size();
    for (size_t i = 0; same && i < want.size(); ++i)
        same = want[i].op == log()[i].op && want[i].a == log()[i].a && want[i].b == log()[i].b;
    VF_CHECK(same, "operator-run", "ran " << show(log()) << ", expected " << show(want));
    for (auto& e : log()) {
        VF_EQ(e.self, self, "operand", "left operand of " << e.op);
        if (arg && e.arg) VF_EQ(e.arg, arg, "operand", "right operand of " << e.op);
    }
}

struct Left
{
    std::unique_ptr<Child> obj;   // the object, seen as a Num or as the whole.
    Value v;
    bool mut;
    std::string how;
    Num* num;
};
void makeLeft(Left& l, Rng& r)
{
    int64_t x = r.range(-50, 50);
    l.obj.reset(new Child(x));
    l.num = l.obj.get();
    l.mut = true;
    switch (r.below(6)) {
    case 0: case 1: l.v = Value(*static_cast<Num*>(l.num)); l.how = "Num&"; break;
    case 2: l.v = Value(*l.obj); l.how = "child"; break;
    case 3: l.v = Value(static_cast<const Num&>(*l.num)); l.mut = false; l.how = "const Num&"; break;
    case 4: l.v = Value(Num(x)); l.num = static_cast<Num*>(l.v.value()); l.how = "owned"; break;
    default: l.v = Value(*l.num).toConst(); l.mut = false; l.how = "made const"; break;
    }
}

void binary(Rng& r)
{
    Left l;
    makeLeft(l, r);
    int op = r.below(BinaryCount);
    int64_t y = r.range(-50, 50);
    bool self = r.chance(8);
    Child rightObj(y);
    Num& right = self ? *l.num : static_cast<Num&>(rightObj);
    if (self) y = right.v;
    const bool mutates = op < FirstBinary;
    const bool boolean = op >= FirstLogic;
    const bool refused = mutates && !l.mut;

    // native
    Num nl(l.num->v), nr(y);
    log().clear();
    int64_t want = 0;
    if (!refused) want = self ? native(op, nl, nl) : native(op, nl, nr);
    std::vector<Entry> wantLog = log();
    log().clear();

    const void* addr = &right;
    Value res;
    bool resBool = false;
    int how = r.below(6);
    describe(VF_STR(l.how << " " << l.num->v << " " << binaryNames[op] << " " << y << " right " << how << (self ? " (itself)" : "")));
    bool raised = raises([&] {
        switch (how) {
        case 0: if (boolean) resBool = opaqueBool(op, l.v, right); else res = opaque(op, l.v, right); break;
        case 1: { const Num& c = right; if (boolean) resBool = opaqueBool(op, l.v, c); else res = opaque(op, l.v, c); break; }
        case 2: addr = nullptr; if (boolean) resBool = opaqueBool(op, l.v, Num(y)); else res = opaque(op, l.v, Num(y)); break;
        case 3: { Value v(right); if (boolean) resBool = opaqueBool(op, l.v, v); else res = opaque(op, l.v, v); break; }
        case 4: addr = nullptr; { Value v{ Num(y) }; if (boolean) resBool = opaqueBool(op, l.v, v); else res = opaque(op, l.v, v); } break;
        default: if (self) { if (boolean) resBool = opaqueBool(op, l.v, l.v); else res = opaque(op, l.v, l.v); }
            else { if (boolean) resBool = opaqueBool(op, l.v, Value(rightObj).toConst()); else res = opaque(op, l.v, Value(rightObj).toConst()); } break;
        }
    });
    VF_EQ(raised, refused, "refused", "raised");
    if (refused) { VF_CHECK(log().empty(), "refused", "ran " << show(log())); event("changes of constants refused"); distinct(mix(op, hash(l.how))); return; }

    sameLog(wantLog, l.num, addr);
    if (boolean) VF_EQ(resBool, want != 0, "result", "result");
    else VF_EQ(res.get<Num>().v, want, "result", "result");
    VF_EQ(l.num->v, nl.v, "left", "left operand afterwards");
    VF_EQ(right.v, self ? nl.v : y, "right", "right operand afterwards");
    if (mutates) VF_EQ(res.value(), (void*) l.num, "reference", "object that the assignment denotes");
    if (!mutates && !boolean) VF_CHECK(res.isStored() && res.value() != (void*) l.num, "reference", "a value is a reference");
    event(mutates ? "assignments" : boolean ? "comparisons" : "arithmetic");
    distinct(mix(mix(op, how), hash(l.how)));
}

void unary(Rng& r)
{
    Left l;
    makeLeft(l, r);
    Num n(l.num->v);
    int op = r.below(11);
    static const char* names[] = { "++", "--", "p++", "p--", "~", "!", "bool", "()", "[]", "++ of const", "neg" };
    describe(VF_STR(names[op] << " of " << l.how << " " << n.v));
    int arg = r.below(100);
    std::string text(r.below(30), 'x');
    log().clear();
    int64_t want = 0;
    const bool mutates = op < 4 || op == 7 || op == 8 || op == 9;
    const bool refused = mutates && !l.mut;
    int64_t expect = n.v;
    if (!refused) {
        switch (op) {
        case 0: case 9: want = (++n).v; break;
        case 1: want = (--n).v; break;
        case 2: want = n.operator++(arg).v; break;
        case 3: want = n.operator--(arg).v; break;
        case 4: want = (~n).v; break;
        case 5: case 10: want = !n; break;
        case 6: want = bool(n); break;
        case 7: want = n(arg, text); break;
        default: want = n[arg]; break;
        }
        expect = n.v;
    }
    std::vector<Entry> wantLog = log();
    log().clear();
    Value res;
    int64_t got = 0;
    bool raised = raises([&] {
        switch (op) {
        case 0: case 9: res = ++l.v; break;
        case 1: res = --l.v; break;
        case 2: res = l.v.operator++(arg); break;
        case 3: res = l.v.operator--(arg); break;
        case 4: res = ~l.v; break;
        case 5: case 10: got = !l.v; break;
        case 6: got = bool(l.v); break;
        case 7: res = l.v(int64_t(arg), text); break;
        default: res = l.v[size_t(arg)]; break;
        }
    });
    VF_EQ(raised, refused, "refused", "raised");
    if (refused) { VF_CHECK(log().empty(), "refused", "ran " << show(log())); event("changes of constants refused"); return; }
    sameLog(wantLog, l.num, nullptr);
    if (op == 7 || op == 8) got = res.get<long>();
    else if (!res.isVoid()) got = res.get<Num>().v;
    VF_EQ(got, want, "result", "result");
    VF_EQ(l.num->v, expect, "left", "operand afterwards");
    if (op < 2) VF_EQ(res.value(), (void*) l.num, "reference", "object denoted");
    if (op == 2 || op == 3) VF_CHECK(res.value() != (void*) l.num, "reference", "denotes the object instead of its old value");
    if (op == 8) VF_EQ(res.value(), (void*) &l.num->v, "reference", "object denoted");
    event("unary operators");
    distinct(mix(op, hash(l.how, 5)));
}

void derefs(Rng& r)
{
    Deref d(r.range(0, 99));
    Value v(d);
    log().clear();
    describe("dereference");
    Value n = *v;
    VF_EQ(n.value(), (void*) &d.n, "reference", "object denoted");
    VF_CHECK(log().size() == 1 && log()[0].op == "unary*", "operator-run", "ran " << show(log()));
    // without an operator of its own, ! is the opposite of the test
    log().clear();
    VF_EQ(!v, !(d.n.v & 1), "result", "negation");
    VF_EQ(bool(v), bool(d.n.v & 1), "result", "test");
    VF_CHECK(log().size() == 2 && log()[0].op == "bool" && log()[1].op == "bool", "operator-run", "ran " << show(log()));
    VF_CHECK(raises([&] { ~v; }) && raises([&] { v + 1; }) && raises([&] { v == 1; }) && raises([&] { v[0]; }), "missing", "ran an operator that the type doesn't have");
    event("dereferences");
    distinct(mix(d.n.v, 1234));
}

void mixed(Rng& r)
{
    Mixed m(r.range(-9, 99)), o(r.chance(40) ? m.v : r.range(0, 99));
    const Mixed& cm = m;
    bool c = r.chance(30);
    Value v = c ? Value(cm) : Value(m);
    int64_t x = r.chance(40) ? m.v : r.range(0, 99);
    std::string s(r.below(20), 'y');
    log().clear();
    auto ran = [&] (const char* op) { VF_CHECK(log().size() == 1 && log()[0].op == op && log()[0].self == &m, "operator-run", "ran " << show(log()) << ", expected " << op); };
    int op = r.below(9);
    describe(VF_STR("overloaded operator " << op << (c ? " on const" : "")));
    switch (op) {
    case 0: { Value q = v + x; ran("+int"); VF_EQ(q.get<Mixed>().v, f("+int", m.v, x), "result", "+"); break; }
    case 1: { Value q = v + s; ran("+str"); VF_EQ(q.get<std::string>(), "m" + s, "result", "+"); break; }
    case 2: { Value q = v + o; ran("+mixed"); VF_EQ(log()[0].arg, (const void*) &o, "operand", "right"); VF_EQ(q.get<Mixed>().v, f("+mixed", m.v, o.v), "result", "+"); break; }
    case 3: {
        bool raised = raises([&] { v += s; });
        VF_EQ(raised, c, "refused", "+=");
        if (!raised) { ran("+=str"); VF_EQ(m.s, "m" + s, "result", "+="); }
        break;
    }
    case 4: { Value q = v[size_t(3)]; ran(c ? "[]const" : "[]mut"); VF_EQ(q.value(), (void*) &m.v, "reference", "[]"); VF_EQ(q.isConst(), c, "reference", "[] const"); break; }
    case 5: { bool q = v == x; ran("==int"); VF_EQ(q, m.v == x, "result", "=="); break; }
    case 6: { bool q = v == Value(o); ran("==mixed"); VF_EQ(q, m.v == o.v, "result", "=="); break; }
    case 7: { Value q = v(); ran("()0"); VF_EQ(q.get<int>(), 10, "result", "()"); break; }
    default: {
        if (r.chance(50)) { Value q = v(x); ran("()1"); VF_EQ(q.get<int>(), 11, "result", "()"); }
        else { Value q = v(x, int64_t(4)); VF_CHECK(log().size() == 1 && log()[0].op == "()2" && log()[0].a == x && log()[0].b == 4, "operator-run", "arguments of ()"); VF_EQ(q.get<int>(), 12, "result", "()"); }
        break;
    }
    }
    VF_CHECK(raises([&] { v - x; }) && raises([&] { v += x; }) && raises([&] { v(x, x, x); }), "missing", "ran an operator that isn't there");
    event("overloaded operators");
    distinct(mix(op, c + 900));
}

template<typename T> void plus(Rng& r, const char* name)
{
    T a = T(r.range(0, 60)), b = T(r.range(0, 60));
    if (std::is_unsigned<T>::value && sizeof(T) >= 4 && r.chance(50)) { a = T(r.next()); b = T(r.next()); }
    describe(VF_STR("sum of " << name));
    Value v(a);
    Value q = v + b;
    typedef decltype(a + b) R;
    VF_EQ(q.type(), reflect::type<R>(), "result", "type of a sum of " << name);
    VF_CHECK(q.get<R>() == a + b, "result", "sum of " << name);
    VF_CHECK(v.get<T>() == a, "left", "operand changed");
    q = Value(static_cast<const T&>(a)) + Value(T(b));
    VF_CHECK(q.get<R>() == a + b, "result", "sum of " << name);
    event("sums of numbers");
    distinct(hash(name, 3));
}
void sums(Rng& r)
{
    plus<char>(r, "char"); plus<signed char>(r, "signed char"); plus<unsigned char>(r, "unsigned char"); plus<short>(r, "short");
    plus<unsigned short>(r, "unsigned short"); plus<int>(r, "int"); plus<unsigned>(r, "unsigned"); plus<long>(r, "long");
    plus<unsigned long>(r, "unsigned long"); plus<long long>(r, "long long"); plus<unsigned long long>(r, "unsigned long long");
    plus<float>(r, "float"); plus<double>(r, "double"); plus<long double>(r, "long double"); plus<bool>(r, "bool");
}

void registration()
{
    std::set<std::string> all;
#define C11_X(o, N) all.insert("operator" #o);
    C11_ONES(C11_X)
#undef C11_X
    auto exactly = [&] (const Type* t, const std::set<std::string>& want) {
        for (auto& n : all) VF_EQ(t->hasFunction(n), want.count(n) > 0, "registered", t->id() << " has " << n);
        std::vector<std::string> l = t->functions();
        VF_CHECK(l == std::vector<std::string>(want.begin(), want.end()), "registered", t->id() << " lists " << join(l));
        for (auto& n : want) VF_EQ(t->function(n).size(), size_t(1), "registered", "overloads of " << n << " in " << t->id());
        event("types described");
    };
#define C11_X(o, N) exactly(reflect::type<One##N>(), { "operator" #o });
    C11_ONES(C11_X)
#undef C11_X
    exactly(reflect::type<OneNone>(), {});
    VF_EQ(reflect::type<BothInc>()->function("operator++").size(), size_t(2), "registered", "increments");
    std::set<std::string> num = all;
    for (auto& n : num) VF_CHECK(reflect::type<Num>()->hasFunction(n), "registered", "Num has no " << n);
    VF_CHECK(reflect::type<Deref>()->hasFunction("operator*") && !reflect::type<Deref>()->hasFunction("operator+"), "registered", "Deref");
    for (auto& n : num) VF_CHECK(reflect::type<Child>()->hasFunction(n), "registered", "Child has no " << n);
}

void run(uint64_t idx, Rng& r)
{
    if (idx == 0) { registration(); return; }
    for (int k = 0; k < 12; ++k) binary(r);
    for (int k = 0; k < 5; ++k) unary(r);
    for (int k = 0; k < 3; ++k) mixed(r);
    derefs(r);
    if (idx % 4 == 0) sums(r);
}

} // namespace

const vf::Harness harness = { "c11", &run, nullptr, nullptr };
