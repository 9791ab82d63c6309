// C06: ownership histories of opaque values and functions against a model of who owns what.
#include "model.h"

using namespace vt;
using namespace vm;
using namespace vf;
using reflect::Value;
using reflect::Function;

typedef std::vector<A> VecA;

namespace {

enum Kind { KA, KB, KC, KU, KNC, KString, KVec, KPtr, KindCount };
const char* kindNames[] = { "A", "B", "C", "U", "NC", "string", "vector<A>", "shared_ptr<A>" };

// An object that opaque values hold or refer to.
struct Obj
{
    Kind k;
    int val;
    bool moved = false;
    bool owned;
    const void* addr = nullptr;
    std::shared_ptr<int> pointee; // what a pointer points to, shared by its copies.
};
typedef std::shared_ptr<Obj> ObjP;

struct Slot
{
    ObjP obj;              // null: void
    bool stored = false;
    bool cst = false;
    RefType ref = RefType::Copy;
    bool hollow = false;   // moved from as a Value: only to be dropped or overwritten.
};

// ------------------------------------------------------------------ kinds

VecA makeVec(int v) { VecA r; for (int i = 0; i < v % 4; ++i) r.push_back(A(v + i)); return r; }
std::string makeStr(int v) { return "string number " + std::to_string(v) + " kept on the heap"; }

const reflect::Type* typeOf(Kind k)
{
    switch (k) {
    case KA: return reflect::type<A>(); case KB: return reflect::type<B>(); case KC: return reflect::type<C>();
    case KU: return reflect::type<U>(); case KNC: return reflect::type<NC>(); case KString: return reflect::type<std::string>();
    case KVec: return reflect::type<VecA>(); default: return reflect::type<std::shared_ptr<A> >();
    }
}
Value makeOwned(Kind k, int v)
{
    switch (k) {
    case KA: return Value(A(v)); case KB: return Value(B(v)); case KC: return Value(C(v)); case KU: return Value(U(v));
    case KNC: return Value(NC(v)); case KString: return Value(makeStr(v)); case KVec: return Value(makeVec(v));
    default: return Value(std::make_shared<A>(v));
    }
}
bool copiable(Kind k) { return k != KNC; }
// What an object of that content adds to the ledger.
long weight(Kind k, int v, bool moved)
{
    switch (k) {
    case KString: return 0;
    case KVec: return moved ? 0 : v % 4;
    case KPtr: return 0; // its pointee is counted apart.
    default: return 1;
    }
}
void checkContent(const Obj& o, const void* p, const char* who)
{
    auto bad = [&] (const std::string& got) {
        fail("content", VF_STR(who << ": a " << kindNames[o.k] << " holds " << got << ", expected " << o.val << (o.moved ? " (moved out)" : "")));
    };
    auto obj = [&] (const Track& t, int v) { t.check(); if (t.moved() != o.moved || (!o.moved && v != o.val)) bad(VF_STR(v << " moved=" << t.moved())); };
    switch (o.k) {
    case KA: case KB: case KC: {
        const A& a = *static_cast<const A*>(p);
        obj(a.t, a.v);
        if (!o.moved && a.s != "s" + std::to_string(o.val)) bad(a.s);
        break; }
    case KU: obj(static_cast<const U*>(p)->t, static_cast<const U*>(p)->v); break;
    case KNC: obj(static_cast<const NC*>(p)->t, static_cast<const NC*>(p)->v); break;
    case KString: if (!o.moved && *static_cast<const std::string*>(p) != makeStr(o.val)) bad(*static_cast<const std::string*>(p)); break;
    case KVec: if (!o.moved && !(*static_cast<const VecA*>(p) == makeVec(o.val))) bad("other elements"); break;
    case KPtr: {
        auto& s = *static_cast<const std::shared_ptr<A>*>(p);
        if (o.moved ? !!s : (!s || s->v != o.val)) bad(s ? std::to_string(s->v) : "null");
        break; }
    default: break;
    }
}

// ------------------------------------------------------------------ natives

struct Natives
{
    A a = A(1); B b = B(2); C c = C(3); U u = U(4); NC nc = NC(5);
    std::string s = makeStr(6); VecA v = makeVec(7); std::shared_ptr<A> p = std::make_shared<A>(8);
    std::vector<ObjP> objs;

    Natives()
    {
        auto add = [&] (Kind k, int v, const void* p) {
            ObjP o(new Obj); o->k = k; o->val = v; o->owned = false; o->addr = p; objs.push_back(o);
            if (k == KPtr) o->pointee = std::make_shared<int>(v);
        };
        add(KA, 1, &a); add(KB, 2, &b); add(KC, 3, &c); add(KU, 4, &u); add(KNC, 5, &nc); add(KString, 6, &s); add(KVec, 7, &v); add(KPtr, 8, &p);
    }
    Value refer(Kind k, bool cst)
    {
        switch (k) {
        case KA: return cst ? Value(const_cast<const A&>(a)) : Value(a);
        case KB: return cst ? Value(const_cast<const B&>(b)) : Value(b);
        case KC: return cst ? Value(const_cast<const C&>(c)) : Value(c);
        case KU: return cst ? Value(const_cast<const U&>(u)) : Value(u);
        case KNC: return cst ? Value(const_cast<const NC&>(nc)) : Value(nc);
        case KString: return cst ? Value(const_cast<const std::string&>(s)) : Value(s);
        case KVec: return cst ? Value(const_cast<const VecA&>(v)) : Value(v);
        default: return cst ? Value(const_cast<const std::shared_ptr<A>&>(p)) : Value(p);
        }
    }
};

// ------------------------------------------------------------------ history

struct Closure
{
    Track t;
    int v;
    Value held;
    Closure(int v, Value held) : v(v), held(held) {}
    int operator()(int x) { t.check(); return v + x; }
};

struct History
{
    static const size_t N = 6;
    long base = Track::live();       // ledger at the start.
    Rng& r;
    Natives nat;
    Value vals[N];
    Slot model[N];
    std::vector<std::weak_ptr<Obj> > owned;
    std::vector<std::string> ops;
    std::unique_ptr<Function> fns[3];
    int fnVals[3];
    ObjP fnHeld[3];
    long closures = 0;
    uint64_t h = 7;

    explicit History(Rng& r) : r(r) {}

    void op(const std::string& s)
    {
        ops.push_back(s);
        std::string d;
        for (size_t i = ops.size() > 12 ? ops.size() - 12 : 0; i < ops.size(); ++i) d += ops[i] + "; ";
        describe(d);
    }

    ObjP newObj(Kind k, int v, const void* p)
    {
        ObjP o(new Obj); o->k = k; o->val = v; o->owned = true; o->addr = p;
        owned.push_back(o);
        if (k == KPtr) o->pointee = std::make_shared<int>(v);
        return o;
    }
    void own(size_t i, Kind k, int v) { model[i] = Slot(); model[i].obj = newObj(k, v, vals[i].value()); model[i].stored = true; model[i].ref = RefType::LValue; }

    void checkAll()
    {
        long live = base;
        std::set<int*> pointees;
        for (auto& w : owned) if (ObjP o = w.lock()) { live += weight(o->k, o->val, o->moved); if (o->pointee) pointees.insert(o->pointee.get()); }
        for (auto& o : nat.objs) if (o->pointee) pointees.insert(o->pointee.get());
        live += pointees.size();
        for (size_t i = 0; i < N; ++i) {
            const Slot& m = model[i];
            const Value& v = vals[i];
            std::string who = "slot " + std::to_string(i);
            if (m.hollow) continue;
            VF_EQ(v.isVoid(), !m.obj, "state", who + " is void");
            if (!m.obj) { VF_CHECK(!v.isStored(), "state", who << " owns something"); continue; }
            VF_CHECK(v.type() == typeOf(m.obj->k), "state", who << " is a " << v.typeId() << ", expected " << kindNames[m.obj->k]);
            VF_EQ(v.isStored(), m.stored, "state", who + " owns");
            VF_EQ(v.isConst(), m.cst, "state", who + " is const");
            VF_CHECK(v.refType() == m.ref, "state", who << " reference kind");
            VF_CHECK(v.value() == m.obj->addr, "identity", who << " denotes another object");
            checkContent(*m.obj, v.value(), who.c_str());
            event("slots checked");
        }
        for (auto& o : nat.objs) checkContent(*o, o->addr, "native");
        // every closure holds one Track, and every native was there already.
        live += closures;
        VF_EQ(Track::live(), live + nativeTracks(), "ledger", "objects alive");
    }
    long nativeTracks() const
    {
        long n = 0;
        for (auto& o : nat.objs) n += weight(o->k, o->val, o->moved);
        return n;
    }

    size_t pick(bool live)
    {
        for (int k = 0; k < 20; ++k) {
            size_t i = r.below(N);
            if (!live || (model[i].obj && !model[i].hollow)) return i;
        }
        return N;
    }

    void step()
    {
        size_t i = r.below(N), j = pick(true);
        int what = r.below(24);
        h = mix(h, what);
        auto name = [&] (const char* s) { op(VF_STR(s << " " << i << " " << (j < N ? VF_STR(j << ":" << kindNames[model[j].obj->k]) : ""))); event(s); };
        Kind k = Kind(r.below(KindCount));
        int v = 10 + r.below(500);
        if (j == N && what >= 3) what = r.below(3);
        switch (what) {
        case 0: case 1: { name("own"); vals[i] = makeOwned(k, v); own(i, k, v); break; }
        case 2: {
            bool cst = r.chance(30);
            name(cst ? "refer const" : "refer");
            vals[i] = nat.refer(k, cst);
            model[i] = Slot(); model[i].obj = nat.objs[k]; model[i].cst = cst; model[i].ref = RefType::LValue;
            break; }
        case 3: { name("assign"); vals[i] = vals[j]; model[i] = Slot(model[j]); break; }
        case 4: { name("copy construct"); { Value t(vals[j]); const Value& ct = t; Value t2(ct); vals[i] = t2; } model[i] = Slot(model[j]); break; }
        case 5: {
            name("move assign");
            vals[i] = std::move(vals[j]);
            Slot m = model[j];
            if (i != j) { model[j] = Slot(); model[j].hollow = true; }
            model[i] = m;
            break; }
        case 6: {
            name("move construct");
            Value t(std::move(vals[j]));
            Slot m = model[j];
            model[j] = Slot(); model[j].hollow = true;
            vals[i] = std::move(t); model[i] = m;
            break; }
        case 7: { name("drop"); vals[i] = Value(); model[i] = Slot(); break; }
        case 8: { name("toConst"); Slot m = model[j]; m.cst = true; m.ref = RefType::RValue; vals[i] = vals[j].toConst(); model[i] = m; break; }
        case 9: { name("rvalue"); Slot m = model[j]; m.ref = RefType::RValue; vals[i] = vals[j].rvalue(); model[i] = m; break; }
        case 10: { // copy
            name("copy");
            Obj o = *model[j].obj;
            if (o.moved) break;
            bool raised = raises([&] { Value c = vals[j].copy(); Value keep = vals[i]; vals[i] = c; });
            VF_EQ(raised, !copiable(o.k), "copy", "copying is refused");
            if (raised) break;
            VF_CHECK(vals[i].value() != o.addr, "copy", "the copy is the object itself");
            own(i, o.k, o.val);
            model[i].obj->pointee = o.pointee;
            break; }
        case 11: { // move out
            name("move");
            Slot m = model[j];
            if (m.obj->moved) break;
            bool refused = m.cst && !copiable(m.obj->k);
            Value out;
            bool raised = raises([&] { out = vals[j].move(); });
            VF_EQ(raised, refused, "move", "moving out is refused");
            if (raised) break;
            event("moved out");
            VF_CHECK(vals[j].isVoid() && !vals[j].isStored(), "move", "the source isn't empty");
            int val = m.obj->val;
            VF_CHECK(out.value() != m.obj->addr, "move", "the result is the object itself");
            Kind mk = m.obj->k;
            auto pointee = m.obj->pointee;
            if (!m.cst) { m.obj->moved = true; m.obj->pointee.reset(); }
            model[j] = Slot();
            vals[i] = out; own(i, mk, val);
            model[i].obj->pointee = pointee;
            m = Slot();
            restoreNatives();
            break; }
        case 12: { // by value through a call
            name("pass by value");
            static Function* f = new Function("take", +[] (A a) { a.v++; return a.v; });
            const Slot& m = model[j];
            bool ok = m.obj->k <= KC;
            if (m.obj->moved) break;
            bool steal = ok && m.ref == RefType::RValue && !m.cst && m.obj->k == KA;
            int got = 0;
            bool raised = raises([&] { got = f->call<int>(vals[j]); });
            VF_EQ(raised, !ok, "call", "passing by value is refused");
            if (ok) VF_EQ(got, m.obj->val + 1, "call", "what was passed");
            if (ok && m.ref == RefType::RValue && !m.cst) stolen(*m.obj);
            (void) steal;
            restoreNatives();
            break; }
        case 13: { // extracted by value
            name("cast");
            const Slot& m = model[j];
            if (m.obj->moved) break;
            bool ok = m.obj->k <= KC;
            int got = 0;
            bool raised = raises([&] { A a = reflect::cast<A>(vals[j]); got = a.v; });
            VF_EQ(raised, !ok, "cast", "extracting is refused");
            if (ok) VF_EQ(got, m.obj->val, "cast", "what was extracted");
            if (ok && m.ref == RefType::RValue && !m.cst) stolen(*m.obj);
            restoreNatives();
            break; }
        case 14: { // by reference
            name("reference");
            const Slot& m = model[j];
            if (m.obj->k > KC) break;
            bool ok = m.ref == RefType::LValue && !m.cst;
            const void* p = nullptr;
            bool raised = raises([&] { A& a = reflect::cast<A&>(vals[j]); p = &a; });
            VF_EQ(raised, !ok, "cast", "a mutable reference is refused");
            if (ok) VF_CHECK(p == m.obj->addr, "identity", "reference to another object");
            const A& ca = reflect::cast<const A&>(vals[j]);
            VF_CHECK(&ca == m.obj->addr, "identity", "const reference to another object");
            break; }
        case 15: { // out of a function that hands values through
            name("through a function");
            static Function* f = new Function("same", +[] (Value v) { return v; });
            if (r.chance(50)) vals[i] = f->call<Value>(vals[j]);
            else { const Value& c = vals[j]; vals[i] = f->call<Value>(c); }
            model[i] = Slot(model[j]);
            break; }
        case 16: { // containers of values
            name("containers");
            std::vector<Value> vec;
            for (int n = 0; n < 5; ++n) vec.push_back(vals[r.below(N)]);
            std::map<int, Value> map;
            map[1] = vals[j]; map[2] = vals[j];
            vec.erase(vec.begin() + r.below(5));
            vec.insert(vec.begin(), map[2]);
            vec.resize(2);
            map.erase(1);
            vals[i] = map[2];
            model[i] = Slot(model[j]);
            break; }
        case 17: { // several threads of ownership in one go
            name("swap");
            if (i == j || model[i].hollow) break;
            std::swap(vals[i], vals[j]);
            std::swap(model[i], model[j]);
            break; }
        case 18: case 19: { // a function that holds an object and a value
            size_t f = r.below(3);
            op(VF_STR("function " << f << " holds slot " << j));
            event("functions described");
            Slot m = model[j];
            Value held = vals[j];
            if (fns[f] && r.chance(60)) *fns[f] = Function("closure", Closure(v, held));
            else fns[f].reset(new Function("closure", Closure(v, held)));
            fnVals[f] = v; fnHeld[f] = m.obj;
            countClosures();
            break; }
        case 20: { // move functions about
            size_t f = r.below(3), g = r.below(3);
            if (!fns[f] || f == g) break;
            op(VF_STR("function " << f << " moves to " << g));
            event("functions moved");
            if (fns[g] && r.chance(70)) { *fns[g] = std::move(*fns[f]); fns[f].reset(); }
            else { fns[g].reset(new Function(std::move(*fns[f]))); fns[f].reset(); }
            fnVals[g] = fnVals[f]; fnHeld[g] = fnHeld[f]; fnHeld[f].reset();
            countClosures();
            break; }
        case 21: { // discard a function
            size_t f = r.below(3);
            op(VF_STR("function " << f << " discarded"));
            event("functions discarded");
            fns[f].reset(); fnHeld[f].reset();
            countClosures();
            break; }
        case 22: { // overload sets and types come and go with their functions
            op("overload sets and types come and go");
            event("types discarded");
            {
                reflect::Overloads ov;
                ov.add(Function("f", Closure(v, vals[j])));
                ov.add(Function("f", [] (const std::string&, int) { return 1; }));
                VF_EQ(ov.call<int>(1), v + 1, "call", "closure in an overload set");
                raises([&] { ov.add(Function("f", Closure(v, vals[j]))); });
                reflect::Type t("Temp");
                t.addFunction("g", Closure(v + 1, vals[j]));
                t.addFunction("g", [] (const std::string&) { return 2; });
                raises([&] { t.addFunction("g", Closure(v, vals[j])); });
                VF_EQ(t.call<int>("g", 2), v + 3, "call", "closure in a type");
                reflect::Overloads ov2(std::move(ov));
                VF_EQ(ov2.call<int>(5), v + 5, "call", "closure in a moved overload set");
            }
            break; }
        default: { // call what the functions hold
            for (size_t f = 0; f < 3; ++f)
                if (fns[f]) VF_EQ(fns[f]->call<int>(int(f)), int(fnVals[f] + f), "call", "closure");
            break; }
        }
        checkAll();
    }

    void countClosures() { closures = 0; for (auto& f : fns) closures += !!f; }

    // An rvalue argument was taken by value: emptied unless nothing but a copy was made.
    void stolen(Obj& o)
    {
        const A& a = *static_cast<const A*>(o.addr);
        o.moved = a.t.moved();
        event(o.moved ? "rvalue emptied" : "rvalue copied");
    }

    void restoreNatives()
    {
        for (auto& o : nat.objs) {
            if (!o->moved) continue;
            switch (o->k) {
            case KA: nat.a = A(o->val); break; case KB: nat.b = B(o->val); break; case KC: nat.c = C(o->val); break;
            case KU: nat.u = U(o->val); break; case KNC: nat.nc = NC(o->val); break; case KString: nat.s = makeStr(o->val); break;
            case KVec: nat.v = makeVec(o->val); break; default: nat.p = std::make_shared<A>(o->val); o->pointee = std::make_shared<int>(o->val); break;
            }
            o->moved = false;
        }
    }
};

void run(uint64_t, Rng& r)
{
    long before = Track::live();
    {
        History hist(r);
        size_t n = 20 + r.below(60);
        for (size_t i = 0; i < n; ++i) hist.step();
        event("steps", n);
        distinct(hist.h);
    }
    VF_EQ(Track::live(), before, "ledger", "objects left after everything was dropped");
}

} // namespace

const vf::Harness harness = { "c06", &run, nullptr, nullptr };
