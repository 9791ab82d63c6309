#include "c12.h"

using namespace vf;
using namespace vt;
using namespace c12;

namespace {

// ------------------------------------------------------------------ strings

void strings(Rng& r)
{
    typedef std::string S;
    const Type* type = reflect::type<S>();
    VF_CHECK(type->is("string") && !type->is("list"), "traits", "of strings");
    Under<S> u(El<S>::make(r), r);
    describe(VF_STR(viewName(u.view) << " string"));
    uint64_t path = hash("string", u.view);
    for (int n = r.range(4, 20); n; --n) {
        int op = r.below(12);
        path = mix(path, op);
        if (op < 8) plumbing(u, op, r);
        else if (op < 10) VF_EQ(u.v.call<size_t>("size"), u.model.size(), "result", "size");
        else if (op == 10) {
            S* p = type->call<S*>("new");
            VF_EQ(p->size(), 0u, "alloc", "allocated");
            delete p;
        }
        else { Value v = type->construct(u.v); v.assign(El<S>::make(r)); }
        u.same("string operation");
        event("string steps");
    }
    distinct(path);
}

// ------------------------------------------------------------------ raw pointers

template<typename T> void raws(Rng& r)
{
    typedef T* P;
    const Type* type = reflect::type<P>();
    VF_CHECK(type->is("primitive") && type->isPointer() && !type->is("smartPtr"), "traits", "of " << type->id());
    VF_EQ(type->pointee(), reflect::type<T>(), "traits", "pointee");
    VF_EQ(type->pointer(), std::string("*"), "traits", "pointer");
    VF_EQ(type->id(), reflect::typeId<T>() + "*", "traits", "name");

    T objs[3] = { T(r.below(100)), T(r.below(100)), T(r.below(100)) };
    int model[3]; for (int i = 0; i < 3; ++i) model[i] = objs[i].v;
    P slots[3]; int at[3]; Value vs[3]; bool isConst[3]; bool owned[3];
    describe(type->id());
    for (int i = 0; i < 3; ++i) {
        at[i] = r.below(4) - 1;
        if (at[i] > 2) at[i] = -1;
        slots[i] = at[i] < 0 ? nullptr : &objs[at[i]];
        isConst[i] = owned[i] = false;
        switch (r.below(4)) {
        case 0: vs[i] = Value(P(slots[i])); owned[i] = true; break;
        case 1: vs[i] = Value(const_cast<const P&>(slots[i])); isConst[i] = true; break;
        default: vs[i] = Value(slots[i]); break;
        }
    }
    uint64_t path = hash(type->id());
    for (int n = r.range(4, 20); n; --n) {
        int op = r.below(7), i = r.below(3), j = r.below(3);
        path = mix(path, op * 9 + i * 3 + j);
        switch (op) {
        case 0: VF_EQ(bool(vs[i]), at[i] >= 0, "result", "null"); VF_EQ(!vs[i], at[i] < 0, "result", "negation"); event(at[i] < 0 ? "null pointers" : "pointers tested"); break;
        case 1: case 2: {
            if (at[i] < 0) break;
            Value o = *vs[i];
            VF_EQ(o.value(), (void*) &objs[at[i]], "alias", "object pointed to");
            VF_EQ(o.type(), reflect::type<T>(), "alias", "type pointed to");
            VF_EQ(o.isConst(), isConst[i], "alias", "constness pointed to");
            bool raised = raises([&] { o.call<void>("set", model[at[i]] + 1); });
            VF_EQ(raised, isConst[i], "refused", "changing what's pointed to");
            if (!raised) { ++model[at[i]]; event("changes through pointers"); }
            break;
        }
        case 3: case 4: { // assignment.
            bool raised = raises([&] {
                switch (r.below(4)) {
                case 0: vs[i].assign(vs[j]); break;
                case 1: vs[i].assign(vs[j].get<P>()); break;
                case 2: { P p = vs[j].get<P>(); vs[i].assign(std::move(p)); break; }
                default: { P p = vs[j].get<P>(); vs[i].assign(p); break; }
                }
            });
            VF_EQ(raised, isConst[i], "refused", "assigning a pointer");
            if (!raised) at[i] = at[j];
            break;
        }
        case 5: {
            Value c = type->construct(vs[i]);
            VF_EQ(c.get<P>(), at[i] < 0 ? nullptr : &objs[at[i]], "copy", "copy constructed");
            VF_CHECK(c.value() != vs[i].value(), "copy", "the copy is the original");
            Value d = vs[i].copy();
            VF_EQ(d.get<P>(), at[i] < 0 ? nullptr : &objs[at[i]], "copy", "copied");
            break;
        }
        default: { // given to functions.
            P p = vs[i].template get<P>();
            VF_EQ(p, at[i] < 0 ? nullptr : &objs[at[i]], "result", "pointer");
            break;
        }
        }
        for (int k = 0; k < 3; ++k) {
            VF_EQ(vs[k].get<P>(), at[k] < 0 ? nullptr : &objs[at[k]], "content", "pointer held");
            if (!owned[k]) VF_EQ(slots[k], at[k] < 0 ? nullptr : &objs[at[k]], "content", "pointer referred to");
            VF_EQ(objs[k].v, model[k], "content", "object pointed to");
        }
        event("pointer steps");
    }
    distinct(path);
}

// ------------------------------------------------------------------ smart pointers

long liveBefore;    // objects alive when the history started.

template<typename P> struct Slots
{
    enum { N = 4 };
    std::unique_ptr<P> native[N];
    Value v[N];
    P* real[N];
    A* model[N];
    bool mut[N];
    const char* how[N];
};

template<typename P> void checkTraits(const char* pointer)
{
    const Type* type = reflect::type<P>();
    typedef typename P::element_type T;
    VF_CHECK(type->is("smartPtr") && type->isPointer() && !type->is("primitive"), "traits", "of " << type->id());
    VF_EQ(type->pointee(), reflect::type<T>(), "traits", "pointee");
    VF_EQ(type->pointer(), std::string(pointer), "traits", "pointer");
}

template<typename P> void initSlots(Slots<P>& s, Rng& r)
{
    typedef typename P::element_type T;
    for (int i = 0; i < Slots<P>::N; ++i) {
        T* p = r.chance(25) ? nullptr : new T(r.below(1000));
        s.model[i] = p;
        P init(p);
        s.mut[i] = true;
        int how = r.below(8);
        if (how < 3) { s.native[i].reset(new P(std::move(init))); s.v[i] = Value(*s.native[i]); s.how[i] = "mutable"; }
        else if (how < 6) { s.v[i] = Value(std::move(init)); s.how[i] = "owned"; }
        else {
            s.native[i].reset(new P(std::move(init)));
            s.v[i] = how == 6 ? Value(static_cast<const P&>(*s.native[i])) : Value(*s.native[i]).toConst();
            s.mut[i] = false; s.how[i] = "const";
        }
        s.real[i] = static_cast<P*>(s.v[i].value());
    }
}

template<typename P> void checkSlots(Slots<P>& s, const std::set<const A*>& loose, const std::string& after)
{
    std::set<const A*> alive(loose);
    for (int i = 0; i < Slots<P>::N; ++i) {
        VF_EQ((const A*) s.real[i]->get(), (const A*) s.model[i], "content", VF_STR("pointer " << i << " after " << after));
        if (s.model[i]) { alive.insert(s.model[i]); s.model[i]->t.check(); }
    }
    VF_EQ(Track::live(), liveBefore + long(alive.size()), "ownership", VF_STR("objects alive after " << after));
    event("pointer steps");
}

// What both kinds have in common. Returns false for other operations.
enum { CommonOps = 8 };
template<typename P> bool common(Slots<P>& s, int op, int i, int j, Rng& r)
{
    typedef typename P::element_type T;
    const Type* type = reflect::type<P>();
    switch (op) {
    case 0: VF_EQ(s.v[i].template call<T*>("get"), static_cast<T*>(s.model[i]), "result", "get"); return true;
    case 1: VF_EQ(bool(s.v[i]), !!s.model[i], "result", "null"); VF_EQ(!s.v[i], !s.model[i], "result", "negation"); event(s.model[i] ? "pointers tested" : "null pointers"); return true;
    case 2: {
        if (!s.model[i]) return true;
        Value o = *s.v[i];
        VF_EQ(o.value(), (void*) s.model[i], "alias", "object pointed to");
        VF_EQ(o.type(), reflect::type<T>(), "alias", "type pointed to");
        VF_CHECK(!o.isConst() && !o.isStored(), "alias", "kind of what's pointed to");
        int x = r.below(1000);
        o.template call<void>("set", x);
        VF_EQ(s.model[i]->v, x, "alias", "change through the pointer");
        VF_EQ(o.template field<int>("v"), x, "alias", "field through the pointer");
        event("changes through pointers");
        return true;
    }
    case 3: VF_EQ(s.v[i] == s.v[j], s.model[i] == s.model[j], "result", "equality"); VF_EQ(s.v[i] == *s.real[j], s.model[i] == s.model[j], "result", "equality"); return true;
    case 4: {
        bool raised = raises([&] { s.v[i].template call<void>("reset"); });
        VF_EQ(raised, !s.mut[i], "refused", "reset refused");
        if (!raised) s.model[i] = nullptr;
        event("resets");
        return true;
    }
    case 5: {
        std::unique_ptr<T> p(r.chance(20) ? nullptr : new T(r.below(1000)));
        T* raw = p.get();
        bool raised = raises([&] {
            if (r.chance(30)) s.v[i].template call<void>("reset", raw);
            else if (r.chance(50)) s.v[i].template call<void>("reset", Value(raw));
            else s.v[i].template call<void>("reset", static_cast<T*>(raw));
        });
        VF_EQ(raised, !s.mut[i], "refused", "reset refused");
        if (!raised) { s.model[i] = p.release(); event("resets"); }
        return true;
    }
    case 6: {
        std::unique_ptr<T> p(r.chance(20) ? nullptr : new T(r.below(1000)));
        T* raw = p.release();
        Value c = r.chance(50) ? type->construct(raw) : type->construct(Value(raw));
        VF_EQ(c.template call<T*>("get"), raw, "cons", "constructed from a pointer");
        VF_CHECK(c.isStored() && c.type() == type, "cons", "what was constructed");
        if (s.mut[i] && r.chance(60)) { s.v[i].assign(c.rvalue()); s.model[i] = raw; VF_EQ(c.template call<bool>("operator bool()"), false, "move", "source of the move"); event("moves"); }
        return true;
    }
    case 7: {
        Value c = type->construct();
        VF_EQ(bool(c), false, "cons", "default constructed");
        return true;
    }
    }
    return false;
}

void shared(Rng& r)
{
    typedef std::shared_ptr<A> P;
    const Type* type = reflect::type<P>();
    checkTraits<P>("std::shared_ptr");
    const long before = Track::live();
    liveBefore = before;
    {
        Slots<P> s;
        initSlots(s, r);
        std::vector<P> extra;
        Value vec{ std::vector<P>() };
        describe("shared_ptr");
        uint64_t path = hash("shared");
        for (int n = r.range(5, 30); n; --n) {
            int op = r.below(CommonOps + 9), i = r.below(4), j = r.below(4);
            path = mix(path, op * 16 + i * 4 + j);
            std::string what = VF_STR("operation " << op << " on " << i << " (" << s.how[i] << ") and " << j << " (" << s.how[j] << ")");
            if (!common(s, op, i, j, r)) switch (op) {
            case 8: case 9: case 10: { // shares.
                bool raised = raises([&] {
                    switch (r.below(3)) {
                    case 0: s.v[i].assign(s.v[j]); break;
                    case 1: s.v[i].assign(*s.real[j]); break;
                    default: s.v[i].assign(P(*s.real[j])); break;
                    }
                });
                VF_EQ(raised, !s.mut[i], "refused", "assignment refused");
                if (!raised) { s.model[i] = s.model[j]; event("shared"); }
                break;
            }
            case 11: {
                if (!s.mut[j] || i == j) break;
                bool raised = raises([&] { s.v[i].assign(s.v[j].rvalue()); });
                VF_EQ(raised, !s.mut[i], "refused", "move refused");
                if (!raised) { s.model[i] = s.model[j]; s.model[j] = nullptr; event("moves"); }
                break;
            }
            case 12: {
                long uses = s.real[i]->use_count();
                Value c = type->construct(s.v[i]);
                VF_EQ(c.call<A*>("get"), s.model[i], "copy", "copy constructed");
                VF_EQ(s.real[i]->use_count(), uses ? uses + 1 : 0, "ownership", "uses");
                Value d = c; // shares the pointer itself.
                VF_EQ(s.real[i]->use_count(), uses ? uses + 1 : 0, "ownership", "uses");
                break;
            }
            case 13: { // extracted.
                P p = s.v[i].get<P>();
                VF_EQ(p.get(), s.model[i], "copy", "copied out");
                break;
            }
            case 14: { // a child's pointer in its parent's.
                typedef std::shared_ptr<B> PB;
                PB b(new B(r.below(1000)));
                B* raw = b.get();
                bool raised = raises([&] {
                    switch (r.below(3)) {
                    case 0: s.v[i].assign(b); break;
                    case 1: s.v[i].assign(Value(b)); break;
                    default: s.v[i].assign(std::move(b)); break;
                    }
                });
                VF_EQ(raised, !s.mut[i], "refused", "assignment refused");
                if (!raised) { s.model[i] = raw; event("children pointed to"); }
                break;
            }
            case 15: { // through a vector.
                vec.call<void>("push_back", s.v[i]);
                size_t k = r.below(vec.call<size_t>("size"));
                A* p = vec[k].call<A*>("get");
                if (!s.mut[j]) break;
                s.v[j].assign(vec[k]);
                s.model[j] = p;
                break;
            }
            default: vec.call<void>("clear"); break;
            }
            std::set<const A*> loose;
            for (auto& p : vec.get<std::vector<P> >()) if (p) loose.insert(p.get());
            checkSlots(s, loose, what);
            std::map<const A*, long> uses;
            for (int k = 0; k < 4; ++k) ++uses[s.model[k]];
            for (auto& p : vec.get<std::vector<P> >()) ++uses[p.get()];
            for (int k = 0; k < 4; ++k) if (s.model[k]) VF_EQ(s.real[k]->use_count(), uses[s.model[k]], "ownership", VF_STR("uses after " << what));
        }
        distinct(path);
    }
    VF_EQ(Track::live(), liveBefore, "ownership", "objects alive at the end");
}

void unique(Rng& r)
{
    typedef std::unique_ptr<A> P;
    const Type* type = reflect::type<P>();
    checkTraits<P>("std::unique_ptr");
    liveBefore = Track::live();
    VF_CHECK(!type->isCopiable() && type->isMovable(), "traits", "copiable");
    {
        Slots<P> s;
        initSlots(s, r);
        describe("unique_ptr");
        uint64_t path = hash("unique");
        for (int n = r.range(5, 30); n; --n) {
            int op = r.below(CommonOps + 6), i = r.below(4), j = r.below(4);
            path = mix(path, op * 16 + i * 4 + j);
            std::string what = VF_STR("operation " << op << " on " << i << " (" << s.how[i] << ") and " << j << " (" << s.how[j] << ")");
            if (!common(s, op, i, j, r)) switch (op) {
            case 8: case 9: {
                std::unique_ptr<A> p;
                bool raised = raises([&] {
                    if (r.chance(50)) p.reset(s.v[i].call<A*>("release"));
                    else p.reset(s.v[i].call<Value>("release").get<A*>());
                });
                VF_EQ(raised, !s.mut[i], "refused", "release refused");
                if (!raised) {
                    VF_EQ(p.get(), s.model[i], "result", "released");
                    if (p) p->t.check();
                    s.model[i] = nullptr;
                    event("releases");
                }
                break;
            }
            case 10: case 11: {
                if (!s.mut[j] || i == j) break;
                bool raised = raises([&] {
                    if (r.chance(50)) s.v[i].assign(s.v[j].rvalue());
                    else s.v[i].assign(std::move(*s.real[j]));
                });
                VF_EQ(raised, !s.mut[i], "refused", "move refused");
                if (!raised) { s.model[i] = s.model[j]; s.model[j] = nullptr; event("moves"); }
                break;
            }
            case 12: { // never copied.
                int how = r.below(4);
                if (i == j) break;
                VF_CHECK(raises([&] {
                    switch (how) {
                    case 0: s.v[i].assign(s.v[j]); break;
                    case 1: type->construct(s.v[j]); break;
                    case 2: s.v[j].copy(); break;
                    default: reflect::cast<P>(s.v[j]); break;
                    }
                }), "copy", "a unique pointer was copied: " << how);
                event("copies refused");
                break;
            }
            case 13: { // taken.
                if (!s.mut[i]) break;
                P p;
                switch (r.below(3)) {
                case 0: p = reflect::cast<P&&>(s.v[i]); break;
                case 1: p = reflect::cast<P&&>(s.v[i].rvalue()); break;
                default: { Value c = type->construct(s.v[i].rvalue()); p = reflect::cast<P&&>(c); } break;
                }
                VF_EQ(p.get(), s.model[i], "move", "moved out");
                s.model[i] = nullptr;
                event("moves");
                break;
            }
            default: break;
            }
            checkSlots(s, std::set<const A*>(), what);
        }
        distinct(path);
    }
    VF_EQ(Track::live(), liveBefore, "ownership", "objects alive at the end");
}

void run(uint64_t idx, Rng& r)
{
    switch (r.below(14)) {
    case 0: case 1: case 2: vectors1(r); break;
    case 3: case 4: vectors2(r); break;
    case 5: case 6: maps1(r); break;
    case 7: case 8: maps2(r); break;
    case 9: maps3(r); break;
    case 10: strings(r); break;
    case 11: r.chance(50) ? raws<A>(r) : raws<B>(r); break;
    case 12: shared(r); break;
    default: unique(r); break;
    }
}

} // namespace

extern const vf::Harness harness;
const vf::Harness harness = { "c12", run, nullptr, nullptr };
